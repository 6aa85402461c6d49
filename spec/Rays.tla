--------------------------------- MODULE Rays ---------------------------------
(***************************************************************************)
(* Clusters and rays of a link (TR 38.901 7.5 steps 5 to 9 with the tables *)
(* of TR 38.811).  K-factors are linear, angles in degrees.                *)
(***************************************************************************)
EXTENDS Geometry, TLC

Db(x) == FMul(10, FLog10(x))
Poly3(x, a, b, c, d) == FSum(<<F(a), FMul(b, x), FMul(c, FSqr(x)), FMul(d, FPow(x, 3))>>)

(* (7.5-3): correction of the delays of LoS links *)
DelayScale(k) == LET x == Db(k) IN Poly3(x, "0.7705", "-0.0433", "0.0002", "0.000017")
(* Delays from the unscaled ones *)
ScaledDelay(los, k, t) == IF los THEN FDiv(t, DelayScale(k)) ELSE F(t)

(* Decay of the mean log-power over the unscaled delay, (7.5-5) *)
Decay(cfg, los, ds) == LET r == Par(cfg, los, "rTau") IN FDiv(FSub(r, 1), FMul(r, ds))
(* Standard deviation of the natural logarithm of a cluster power *)
LogPowerStd(cfg, los) == FMul(Par(cfg, los, "zeta"), FDiv(FLn(10), 10))

(* Powers that determine the angles, (7.5-8) *)
AnglePowers(los, k, P) ==
    IF ~los THEN P
    ELSE LET q == FDiv(1, FAdd(k, 1))
         IN [n \in 1..Len(P) |-> IF n = 1 THEN FAdd(FMul(q, P[1]), FMul(q, k)) ELSE FMul(q, P[n])]

-------------------------------------------------------------------------------
(* Angles *)
CPhi(cfg, los, k) ==
    LET x == Db(k) c == Par(cfg, los, "CPhiNLoS")
    IN IF los THEN FMul(c, Poly3(x, "1.1035", "-0.028", "-0.002", "0.0001")) ELSE c
CTheta(cfg, los, k) ==
    LET x == Db(k) c == Par(cfg, los, "CThetaNLoS")
    IN IF los THEN FMul(c, Poly3(x, "1.3086", "0.0339", "-0.0077", "0.0002")) ELSE c

(* Distance of the cluster angle from the direction, before sign and random part *)
MinRel == "1e-6"
RelPower(P, n) == FMax(MinRel, FDiv(P[n], FMaxSeq(P)))
AzDistance(cfg, los, k, spread, P, n) ==
    FDiv(FMul(FDiv(FMul(2, spread), "1.4"), FSqrt(FNeg(FLn(RelPower(P, n))))), CPhi(cfg, los, k))
ZenDistance(cfg, los, k, spread, P, n) ==
    FDiv(FMul(FNeg(spread), FLn(RelPower(P, n))), CTheta(cfg, los, k))

(* Table 7.5-3 *)
HalfOffsets == <<"0.0447", "0.1413", "0.2492", "0.3715", "0.5129", "0.6797", "0.8844", "1.1481", "1.5195", "2.1551">>
Offset(m) == IF m % 2 = 1 THEN F(HalfOffsets[(m + 1) \div 2]) ELSE FNeg(HalfOffsets[m \div 2])
NumRays == 20

(* Rms spread of the rays within a cluster *)
Kinds == {"aoa", "aod", "zoa", "zod"}
IntraSpread(cfg, los, kind) ==
    CASE kind = "aoa" -> Par(cfg, los, "cASA")
      [] kind = "aod" -> Par(cfg, los, "cASD")
      [] kind = "zoa" -> Par(cfg, los, "cZSA")
      [] kind = "zod" -> FMul(FDiv(3, 8), FPow(10, Par(cfg, los, "muZSD")))

(* Above this height no angular spread is seen by the BS *)
SpaceHeight == 160000
InSpace(h) == FLe(SpaceHeight, h)
Departs(kind) == kind \in {"aod", "zod"}

(* Values on the circle, and zeniths folded to [0, 180] *)
Wrap180(x) == LET y == FMod(x, 360) IN IF FLt(180, y) THEN FSub(y, 360) ELSE y
Fold(x) == LET y == FMod(x, 360) IN IF FLt(180, y) THEN FSub(360, y) ELSE y
Represent(kind, x) == IF kind \in {"aoa", "aod"} THEN Wrap180(x) ELSE Fold(x)
InRange(kind, x) == IF kind \in {"aoa", "aod"} THEN FLe(-180, x) /\ FLe(x, 180) ELSE FLe(0, x) /\ FLe(x, 180)

Sorted(s) == LET o == TLCEval(FArgSort(s)) IN [i \in 1..Len(s) |-> s[o[i]]]
(* The rays of a cluster at centre c, as sorted values relative to the centre *)
(* for azimuths (in (-180, 180]), folded values for zeniths                  *)
RayValues(kind, c, intra) ==
    IF kind \in {"aoa", "aod"} THEN Sorted([m \in 1..NumRays |-> FMul(intra, Offset(m))])
    ELSE Sorted([m \in 1..NumRays |-> Fold(FAdd(c, FMul(intra, Offset(m))))])
Observed(kind, c, a) ==
    IF kind \in {"aoa", "aod"} THEN Sorted([m \in 1..Len(a) |-> Wrap180(FSub(a[m], c))])
    ELSE Sorted([m \in 1..Len(a) |-> F(a[m])])
RaysAround(kind, c, intra, a, tol) == FNearAll(Observed(kind, c, a), RayValues(kind, c, intra), tol, 0)

(* A centre of the observed rays: a ray minus the smallest offset.  Zeniths  *)
(* may have been folded.                                                     *)
CentreAt(kind, intra, a, i, s) == FSub(FMul(s, a[i]), FMul(intra, Offset(1)))
HasCentre(kind, intra, a, tol) ==
    \E s \in (IF kind \in {"aoa", "aod"} THEN {1} ELSE {1, -1}) : \E i \in 1..Len(a) :
        RaysAround(kind, CentreAt(kind, intra, a, i, s), intra, a, tol)
Centre(kind, intra, a, tol) ==
    LET S == {x \in (IF kind \in {"aoa", "aod"} THEN {1} ELSE {1, -1}) \X (1..Len(a)) :
                RaysAround(kind, CentreAt(kind, intra, a, x[2], x[1]), intra, a, tol)}
        x == CHOOSE x \in S : TRUE
    IN CentreAt(kind, intra, a, x[2], x[1])

-------------------------------------------------------------------------------
(* Sample statistics: |mean - m| within z standard errors *)
Mean(s) == FDiv(FSum(s), Len(s))
MeanIs(s, m, sd, z) == FLe(FAbs(FSub(Mean(s), m)), FDiv(FMul(z, sd), FSqrt(Len(s))))
(* second moment of a normal sample with mean 0 and deviation sd *)
NormalSquares(s, sd, z) ==
    LET v == FSqr(sd) IN FLe(FAbs(FSub(FDiv(FDot(s, s), Len(s)), v)), FDiv(FMul(FMul(z, v), FSqrt(2)), FSqrt(Len(s))))
===============================================================================
