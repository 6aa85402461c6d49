-------------------------------- MODULE Tr_N10 --------------------------------
(* Recorded cluster delays and powers against Rays *)
EXTENDS TraceLib, Rays
VARIABLE l

At(x, k) == x[k[1]][k[2]][k[3]]
LinksOf(e) == (1..Len(e.los)) \X (1..Len(e.los[1])) \X (1..Len(e.los[1][1]))
Used(e, k) == NumClusters(e.cfg, At(e.los, k))
ShapeOk(e, x) == HasShape(x, <<Len(e.los), Len(e.los[1]), Len(e.los[1][1]), NumClustersMax(e.cfg)>>)

(* normal form of the delays t and powers p of a link *)
DelaysNormal(e, k, t) ==
    /\ FEq(t[1], 0)
    /\ \A n \in 1..(Len(t) - 1) : FLe(t[n], t[n + 1])
    /\ \A n \in 1..Used(e, k) : FIsFinite(t[n]) /\ FLe(0, t[n])
PowersNormal(e, k, p) ==
    /\ \A n \in 1..Len(p) : IF n <= Used(e, k) THEN FLe(0, p[n]) /\ FIsFinite(p[n]) ELSE FEq(p[n], 0)
    /\ FNear(FSum(p), 1, "1e-5", 0)
(* no uniform draw is below 1e-6 by more than rounding *)
Bound(e, k) == FMul(FMul(16, Par(e.cfg, At(e.los, k), "rTau")), At(e.ds, k))

Spacing(u, n, j) == FMul(n - j, FSub(u[j + 1], u[j]))

(* pairs of links of other UTs, of other BSs, of both, of other examples *)
Neighbours(N) ==
    LET q == N \div 4 U(k) == [m \in 1..(2 * q) |-> <<4 * ((m - 1) \div 2) + k[1 + (m % 2)][1], 4 * ((m - 1) \div 2) + k[1 + (m % 2)][2]>>]
    IN TLCEval(<<U(<<<<1, 2>>, <<3, 4>>>>), U(<<<<1, 3>>, <<2, 4>>>>), U(<<<<1, 4>>, <<2, 3>>>>),
                 [i \in 1..(N - 4) |-> <<i, i + 4>>]>>)

Clauses(e) ==
    CASE e.ev = "begin" -> <<>>
      [] e.ev = "stages" ->
         LET sane == ShapeOk(e, e.delays) /\ ShapeOk(e, e.unscaled) /\ ShapeOk(e, e.powers) /\ ShapeOk(e, e.pfa)
             K == LinksOf(e)
         IN IF ~sane THEN << <<"Shape", FALSE>> >>
            ELSE << <<"DelaysNormal", \A k \in K : DelaysNormal(e, k, At(e.unscaled, k)) /\ DelaysNormal(e, k, At(e.delays, k))>>,
                    <<"LosCorrection", \A k \in K : \A n \in 1..Used(e, k) :
                        FNear(At(e.delays, k)[n], ScaledDelay(At(e.los, k), At(e.k, k), At(e.unscaled, k)[n]), 0, "1e-5")>>,
                    <<"DelaySpread", \A k \in K : \A n \in 1..Used(e, k) : FLe(At(e.unscaled, k)[n], Bound(e, k))>>,
                    <<"PowersNormal", \A k \in K : PowersNormal(e, k, At(e.powers, k))>>,
                    <<"AnglePowers", \A k \in K : FNearAll(At(e.pfa, k), AnglePowers(At(e.los, k), At(e.k, k), At(e.powers, k)), "1e-6", "1e-5")>> >>
      [] e.ev = "scaled" ->     \* the same draws with other delay spreads
         << <<"LinearInSpread", \A k \in LinksOf(e) : \A n \in 1..Used(e, k) :
                FNear(FDiv(At(e.t2, k)[n], At(e.ds2, k)), FDiv(At(e.t1, k)[n], At(e.ds, k)), "1e-4", "1e-3")>> >>
      [] e.ev = "rays" ->
         LET sane == ShapeOk(e, e.delays) /\ ShapeOk(e, e.powers)
             K == LinksOf(e)
         IN IF ~sane THEN << <<"Shape", FALSE>> >>
            ELSE << <<"DelaysNormal", \A k \in K : DelaysNormal(e, k, At(e.delays, k))>>,
                    <<"DelaySpread", \A k \in K : \A n \in 1..Used(e, k) :
                        FLe(At(e.delays, k)[n], ScaledDelay(At(e.los, k), At(e.k, k), Bound(e, k)))>>,
                    <<"PowersNormal", \A k \in K : PowersNormal(e, k, At(e.powers, k))>> >>
      [] e.ev = "stats" ->      \* many independent links in one LoS state; u: unscaled, p: powers
         LET los == e.los N == Len(e.u) n == NumClusters(e.cfg, los)
             rt == Par(e.cfg, los, "rTau")
             \* of the public call only the corrected delays are known
             u == IF Has(e, "k") /\ los THEN TLCEval([i \in 1..N |-> [j \in DOMAIN e.u[i] |-> FMul(e.u[i][j], DelayScale(e.k[i]))]]) ELSE e.u
             X(j) == TLCEval([i \in 1..N |-> FDiv(Spacing(u[i], n, j), FMul(rt, e.ds[i]))])
             sd == LogPowerStd(e.cfg, los)
             G(j) == TLCEval([i \in 1..N |-> FAdd(FLn(FDiv(e.p[i][j], e.p[i][1])),
                                   FMul(FSub(u[i][j], u[i][1]), Decay(e.cfg, los, e.ds[i])))])
             g == TLCEval([j \in 2..n |-> G(j)])
             \* links of one example: (BS 1, UT 1), (1, 2), (2, 1), (2, 2)
             half(j) == TLCEval([i \in 1..N |-> IF FLt(FDiv(Spacing(u[i], n, j), FMul(rt, e.ds[i])), FLn(2)) THEN 1 ELSE -1])
             Apart(x, sq, S) == \A d \in {1, 2, 3, 4} : MeanIs([m \in 1..Len(S[d]) |-> FMul(x[S[d][m][1]], x[S[d][m][2]])], 0, sq, "6.5")
         IN << \* spacings of ordered exponential variables
               <<"ExponentialDelays", \A j \in 1..(n - 1) :
                    LET x == X(j) IN MeanIs(x, 1, 1, 6)
                       /\ FLe(FAbs(FSub(FDiv(FDot(x, x), N), 2)), FDiv(FMul("7.5", FSqrt(20)), FSqrt(N)))>>,
               <<"MeanPowerDecay", \A j \in 2..n : MeanIs(g[j], 0, FMul(sd, FSqrt(2)), 6)>>,
               <<"ClusterShadowing", \A j \in 2..n : NormalSquares(g[j], FMul(sd, FSqrt(2)), "6.5")>>,
               <<"ClustersIndependent", \A i, j \in 2..n : i < j =>
                    FNear(FDiv(FDot(g[i], g[j]), N), FSqr(sd), FDiv(FMul(FMul("6.5", FSqr(sd)), "2.3"), FSqrt(N)), 0)>>,
               <<"LinksIndependent", \A j \in 2..n : Apart(half(j - 1), 1, Neighbours(N)) /\ Apart(g[j], FMul(2, FSqr(sd)), Neighbours(N))>> >>
      [] OTHER -> << <<"Completes", FALSE>> >>

Init == l = 1
Next == \/ l <= Len(Trace) /\ Judge(l, Clauses(Trace[l])) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done /\ l' = l + 1
===============================================================================
