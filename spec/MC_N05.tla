-------------------------------- MODULE MC_N05 --------------------------------
(***************************************************************************)
(* Construction of a model as a machine that examines the arguments in any *)
(* order and stops at the first objection: the outcome never depends on    *)
(* the order, and everything accepted is served by the tables.             *)
(***************************************************************************)
EXTENDS Admission, Json, TLC, FiniteSets
CONSTANTS Quick
VARIABLES m, left, verdict
vars == <<m, left, verdict>>

Hz == {"1899000000", "1900000000", "3000000000", "4000000000", "4001000000", "10000000000",
       "18990000000", "19000000000", "28000000000", "40000000000", "40010000000", "400000000"}
El == {"9.9", "10", "45", "90", "90.1", "0"}
Dirs == {"uplink", "downlink", "sidelink", "Uplink"}
Arrays == [kind : {"panel", "foreign"}, hz : {"1900000000", "28000000000", "40010000000"}]

Checks == {"dir", "hz", "el", "ut", "bs"}
Passes(x, k) == CASE k = "dir" -> DirectionOk(x.dir) [] k = "hz" -> CarrierOk(x.hz) [] k = "el" -> ElevationOk(x.el)
                  [] k = "ut" -> ArrayOk(x.ut, x.hz) [] k = "bs" -> ArrayOk(x.bs, x.hz)
Init == /\ m \in [dir : Dirs, hz : Hz, el : El, ut : Arrays, bs : Arrays]
        /\ left = Checks /\ verdict = "open"
Examine == /\ verdict = "open" /\ left # {}
           /\ \E k \in left : left' = left \ {k} /\ verdict' = IF Passes(m, k) THEN "open" ELSE "refused"
           /\ UNCHANGED m
Accept == verdict = "open" /\ left = {} /\ verdict' = "accepted" /\ UNCHANGED <<m, left>>
Next == Examine \/ Accept
Confluent == verdict # "open" => (verdict = "accepted") = ModelOk(m)
(* an accepted model finds all its parameters *)
Needed == {"LoS_p", "CL", "sigmaSF", "numClusters", "rTau", "zeta", "cDS", "muDS", "sigmaDS", "muK", "sigmaK"}
Served == verdict = "accepted" =>
    \A scn \in ScnNames, los \in BOOLEAN :
        LET c == [scn |-> scn, dir |-> m.dir, f |-> FDiv(m.hz, 1000000000), el |-> m.el]
        IN /\ NumClusters(c, los) >= 1
           /\ FLe(0, Par(c, TRUE, "LoS_p")) /\ FLe(Par(c, TRUE, "LoS_p"), 1)
           /\ \A i \in 1..7 : FLe(0, LspStd(c, los, i)) /\ (FIsFinite(LspMean(c, los, i)) \/ FEq(LspMean(c, los, i), "-inf"))

-------------------------------------------------------------------------------
Arr(k, h) == [kind |-> k, hz |-> h]
Base == [scn : ScnNames, dir : {"uplink", "downlink"}, prec : {"single", "double"}, form : {"float", "int", "numpy"}]
GoodHz == {"1900000000", "1980000000", "2500000000", "4000000000", "19000000000", "19700000000", "29500000000", "40000000000"}
BadHz == {"1899000000", "1500000000", "4001000000", "6000000000", "10000000000", "18990000000", "40010000000", "60000000000", "400000000", "0.1"}
GoodEl == {"10", "10.001", "15.3", "44", "47", "80", "89.99", "90"}
BadEl == {"9.99", "5", "0", "-45", "90.01", "135", "450"}
Mod(b, hz, el, ut, bs) == [kind |-> "model", scn |-> b.scn, dir |-> b.dir, prec |-> b.prec, form |-> b.form,
                           hz |-> hz, el |-> el, ut |-> ut, bs |-> bs]
Other(hz) == IF hz = "2500000000" THEN "2500100000" ELSE "2500000000"
Good == {Mod(b, hz, el, Arr(x, hz), Arr(y, hz)) : b \in Base, hz \in GoodHz, el \in GoodEl, x \in {"panel", "array"}, y \in {"panel", "antenna"}}
OneBad == UNION {
    {Mod([b EXCEPT !.dir = d], hz, "50", Arr("panel", hz), Arr("panel", hz)) :
        b \in Base, d \in {"sidelink", "Uplink", "UPLINK", "down", ""}, hz \in {"2500000000", "28000000000"}},
    {Mod(b, hz, "50", Arr("panel", hz), Arr("panel", hz)) : b \in Base, hz \in BadHz},
    {Mod(b, hz, el, Arr("panel", hz), Arr("panel", hz)) : b \in Base, el \in BadEl, hz \in {"2500000000", "28000000000"}},
    {Mod(b, hz, "50", Arr("panel", x), Arr("panel", y)) : b \in Base, hz \in {"2500000000", "4000000000"},
        x \in {"2500000000", "4000000000", "2500100000", "28000000000"}, y \in {"2500000000", "4000000000", "2500100000", "28000000000"}},
    {Mod(b, hz, "50", Arr(x, hz), Arr(y, hz)) : b \in Base, hz \in {"2500000000", "28000000000"},
        x \in {"panel", "foreign", "string", "none"}, y \in {"panel", "foreign", "string", "none"}}}
Panels == [kind : {"array"}, pol : {"single", "dual", "VH", "none"}, ptype : {"V", "H", "VH", "cross", "X", "HV"},
           pattern : ArrayPatterns \cup {"isotropic", "38901", "OMNI"}, vrel : {"default", "above", "equal", "below"},
           hrel : {"default", "above", "equal", "below"}, cls : {"panel"}]
          \cup [kind : {"array"}, pol : {"single", "dual", "cross", "none"}, ptype : {"V", "H", "VH", "cross", "vh"},
                pattern : ArrayPatterns \cup {"aperture2", ""}, vrel : {"default"}, hrel : {"default"}, cls : {"antenna", "array"}]
Elements == [kind : {"element"}, pattern : ArrayPatterns \cup {"isotropic", "38901", "OMNI", "", "dipole"}, prec : {"single", "double"}]
Names == [kind : {"topology"}, name : TopologyNames \cup {"", "DUR", "urban", "rur", "uma", "umi", "du"}, prec : {"single", "double"},
          fn : {"sector", "params"}]
Cases == Good \cup OneBad \cup Panels \cup Elements \cup Names
GenInit == m \in Cases /\ PrintT("CASE " \o ToJson(m)) /\ left = {} /\ verdict = "gen"
===============================================================================
