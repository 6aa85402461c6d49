-------------------------------- MODULE Tr_N14 --------------------------------
(* Recorded time series against UT motion and satellite Doppler *)
EXTENDS CirLib
VARIABLE l

CConj(a) == <<F(a[1]), FNeg(a[2])>>
Norm2(a) == FAdd(FSqr(a[1]), FSqr(a[2]))
(* Common rate of the observed H against the prediction E without satellite, *)
(* from the first two samples (slower than half a turn per sample)           *)
RateOf(H, E, fs) ==
    LET w(i) == CSumAll(([p \in 1..Len(H) |-> [u \in 1..Len(H[p]) |-> [s \in 1..Len(H[p][u]) |->
                    CMul(H[p][u][s][i], CConj(E[p][u][s][i]))]]]))
        r == CMul(w(2), CConj(w(1)))
    IN FMul(FAtan2(r[2], r[1]), fs)

BsLinks(e, b, s) == {k \in CirLinks(e) : k[1] = b /\ BsOf(e, k[2], k[3]) = s}
Clauses(e) ==
    CASE e.ev = "begin" -> <<>>
      [] e.ev = "cir" ->
         IF ~CirShape(e) THEN << <<"Shape", FALSE>> >>
         ELSE
         LET T == SampleTimes(e.nt, e.fs)
             B == Len(e.topo.los) NBS == Len(e.hb[1])
             lam == FDiv(C0, e.f)
             H(k) == e.h[k[1]][k[2]][k[3]]
             E == TLCEval([k \in CirLinks(e) |-> Coef(CirLink(e, k[1], k[2], k[3]), T)])
             rate == TLCEval([x \in (1..B) \X (1..NBS) |->
                        LET k == CHOOSE k \in BsLinks(e, x[1], x[2]) : TRUE
                        IN IF e.nt = 1 THEN F(0) ELSE RateOf(H(k), E[k], e.fs)])
             sat(x) == e.doppler /\ FLe(SatHeight, e.hb[x[1]][x[2]])
             tol(k) == PhaseTol(CirLink(e, k[1], k[2], k[3]))
             Start == \A k \in CirLinks(e) :
                FNearAll([p \in 1..Len(H(k)) |-> H(k)[p][1][1][1]], [p \in 1..Len(H(k)) |-> E[k][p][1][1][1]], tol(k), "1e-7")
             UtMotion == \A k \in CirLinks(e) : ~sat(<<k[1], BsOf(e, k[2], k[3])>>) =>
                FNearAll(H(k), E[k], tol(k), "1e-7")
             Common == \A k \in CirLinks(e) : sat(<<k[1], BsOf(e, k[2], k[3])>>) =>
                FNearAll(H(k), Rotate(E[k], rate[<<k[1], BsOf(e, k[2], k[3])>>], T), FMul(10, tol(k)), "1e-6")
             Limit(x) == SatRate(e.hb[x[1]][x[2]], e.el, lam)
             eps == FMul("1e-5", e.fs)
             Bounded == \A x \in (1..B) \X (1..NBS) : sat(x) => FLe(FAbs(rate[x]), FAdd(FMul(Limit(x), "1.000001"), eps))
             (* the heading is almost never exactly across *)
             Turns == e.nt > 1 => \A x \in (1..B) \X (1..NBS) : (sat(x) /\ FLe(1000, Limit(x))) => FLe(FAdd("0.05", FMul("1e-6", Limit(x))), FAbs(rate[x]))
             OnePerExample == \A b \in 1..B : \A i, j \in 1..NBS :
                 (sat(<<b, i>>) /\ sat(<<b, j>>) /\ FEq(e.hb[b][i], e.hb[b][j])) => FNear(rate[<<b, i>>], rate[<<b, j>>], eps, "1e-6")
             Static == (\A v \in DOMAIN FFlatten(e.topo.velocities) : FEq(FFlatten(e.topo.velocities)[v], 0)) =>
                 \A k \in CirLinks(e) : ~sat(<<k[1], BsOf(e, k[2], k[3])>>) =>
                    \A p \in 1..Len(H(k)) : \A i \in 1..e.nt :
                       FNearAll(H(k)[p][1][1][i], H(k)[p][1][1][1], "1e-12", 0)
         IN << <<"SampleTimes", FNearAll(e.t, T, 0, "1e-12")>>, <<"Start", Start>>, <<"UtMotion", UtMotion>>,
               <<"CommonRate", e.nt = 1 \/ Common>>, <<"RateBound", Bounded>>, <<"SatellitesTurn", Turns>>,
               <<"OneRatePerExample", OnePerExample>>, <<"Static", Static>> >>
      [] e.ev = "rates" ->   \* single-ray links of many batch examples: every example has its own heading
         LET n == Len(e.h)
             lam == FDiv(C0, e.f)
             q == TLCEval([b \in 1..n |->
                    FDiv(RateOf(e.h[b][1][1], Coef(CirLink(e, b, 1, 1), SampleTimes(e.nt, e.fs)), e.fs),
                         SatRate(e.hb[b][1], e.el, lam))])
         IN << <<"RatesBounded", \A b \in 1..n : FLe(FAbs(q[b]), "1.00001")>>,
               <<"RatesReachBound", FLe("0.97", FMaxSeq(q)) /\ FLe(FMinSeq(q), "-0.97")>>,
               <<"RatesDiffer", FLe(FAbs(FDiv(FSum(q), n)), FDiv(5, FSqrt(n))) >>,
               \* cos of a uniform heading: mean square 1/2
               <<"Heading", FNear(FDiv(FDot(q, q), n), "0.5", FDiv("2.2", FSqrt(n)), 0)>> >>
      [] OTHER -> << <<"Completes", FALSE>> >>

Init == l = 1
Next == \/ l <= Len(Trace) /\ Judge(l, Clauses(Trace[l])) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done /\ l' = l + 1
===============================================================================
