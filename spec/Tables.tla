-------------------------------- MODULE Tables --------------------------------
(***************************************************************************)
(* The statistical parameters of 3GPP TR 38.811 (tables 6.7.2-1 to -8 and  *)
(* 6.6.1-1, 6.6.2-1 to -3), data/tables38811.json.                         *)
(*                                                                         *)
(*   Tab[scenario][state][band][direction][parameter][i]                   *)
(*                                                                         *)
(* is the entry for elevation 10*i degrees.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FloatMath, IOUtils

Tab == FLoadJson(IOEnv.SPECDIR \o "/data/tables38811.json")

ScnNames == {"dur", "urb", "sur"}
Directions == {"uplink", "downlink"}

PI == "3.141592653589793"
RE == 6371000                 \* Earth radius [m]
C0 == 299792458               \* speed of light [m/s]
Deg(x) == FDiv(FMul(x, 180), PI)
Rad(x) == FDiv(FMul(x, PI), 180)

(* Supported carriers [GHz] and their bands *)
InS(f)  == FLe("1.9", f) /\ FLe(f, 4)
InKa(f) == FLe(19, f) /\ FLe(f, 40)
Band(f) == IF InS(f) THEN "S" ELSE "Ka"

(* Index of the table column nearest to an elevation angle in degrees *)
ElIdx(el) == FToInt(FRint(FDiv(el, 10)))

(* cfg is a record with fields scn, dir, f (GHz), el (degrees) *)
Par(cfg, los, name) ==
    Tab[cfg.scn][IF los THEN "LOS" ELSE "NLOS"][Band(cfg.f)][cfg.dir][name][ElIdx(cfg.el)]

Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b
NumClusters(cfg, los) == FToInt(Par(cfg, los, "numClusters"))
NumClustersMax(cfg) == Max(NumClusters(cfg, TRUE), NumClusters(cfg, FALSE))

(* Means and standard deviations of the log10 of the large-scale parameters, *)
(* in the order DS, ASD, ASA, SF, K, ZSA, ZSD                                *)
LspNames == <<"DS", "ASD", "ASA", "SF", "K", "ZSA", "ZSD">>
LspMean(cfg, los, i) ==
    CASE i = 4 -> 0
      [] i = 5 -> FDiv(Par(cfg, los, "muK"), 10)
      [] OTHER -> Par(cfg, los, "mu" \o LspNames[i])
LspStd(cfg, los, i) ==
    CASE i \in {4, 5} -> FDiv(Par(cfg, los, "sigma" \o LspNames[i]), 10)
      [] OTHER -> Par(cfg, los, "sigma" \o LspNames[i])

CorrDist(cfg, los, i) == Par(cfg, los, "corrDist" \o LspNames[i])

(* Cross-correlation of two large-scale parameters i # j *)
CorrKey(i, j) ==
    CASE {i, j} = {1, 2} -> "corrASDvsDS"
      [] {i, j} = {1, 3} -> "corrASAvsDS"
      [] {i, j} = {3, 4} -> "corrASAvsSF"
      [] {i, j} = {2, 4} -> "corrASDvsSF"
      [] {i, j} = {1, 4} -> "corrDSvsSF"
      [] {i, j} = {2, 3} -> "corrASDvsASA"
      [] {i, j} = {2, 5} -> "corrASDvsK"
      [] {i, j} = {3, 5} -> "corrASAvsK"
      [] {i, j} = {1, 5} -> "corrDSvsK"
      [] {i, j} = {4, 5} -> "corrSFvsK"
      [] {i, j} = {4, 7} -> "corrZSDvsSF"
      [] {i, j} = {4, 6} -> "corrZSAvsSF"
      [] {i, j} = {5, 7} -> "corrZSDvsK"
      [] {i, j} = {5, 6} -> "corrZSAvsK"
      [] {i, j} = {1, 7} -> "corrZSDvsDS"
      [] {i, j} = {1, 6} -> "corrZSAvsDS"
      [] {i, j} = {2, 7} -> "corrZSDvsASD"
      [] {i, j} = {2, 6} -> "corrZSAvsASD"
      [] {i, j} = {3, 7} -> "corrZSDvsASA"
      [] {i, j} = {3, 6} -> "corrZSAvsASA"
      [] {i, j} = {6, 7} -> "corrZSDvsZSA"
CrossCorr(cfg, los, i, j) == IF i = j THEN 1 ELSE Par(cfg, los, CorrKey(i, j))
===============================================================================
