-------------------------------- MODULE Tr_N16 --------------------------------
(* Recorded correlation factors and samples of large-scale parameters against Lsp *)
EXTENDS TraceLib, Lsp, Geometry
VARIABLE l

Mean(s) == FDiv(FSum(s), Len(s))
Near0(x, lim) == FLe(FAbs(x), lim)
Prod(R, i, j) == FDot(R[i], R[j])

(* samples: los[i] state, y[p][i] = log10 of parameter p of sample i, normalised *)
Normal(e, p, los, v) == FDiv(FSub(FLog10(v), LspMean(e.cfg, los, p)), LspStd(e.cfg, los, p))
Random(cfg, los, p) == ~Vanishing(LspMean(cfg, los, p)) /\ FLt(0, LspStd(cfg, los, p))
(* the cap of parameter p in units of its deviation *)
CapAt(cfg, los, p) == IF p \in {2, 3, 6, 7} THEN FDiv(FSub(FLog10(Cap(p)), LspMean(cfg, los, p)), LspStd(cfg, los, p)) ELSE F(1000)
Capped(cfg, los, p) == FLt(CapAt(cfg, los, p), 5)
(* the median is not capped *)
Spread(cfg, los, p) == Random(cfg, los, p) /\ FLt(0, CapAt(cfg, los, p))
Sgn(x) == IF FLt(x, 0) THEN -1 ELSE 1
Frac(s, lim) == FDiv(Cardinality({i \in 1..Len(s) : FLt(s[i], lim)}), Len(s))
FracIs(s, lim, p, z) == Near0(FSub(Frac(s, lim), p), FDiv(FMul(z, FSqrt(FMul(p, FSub(1, p)))), FSqrt(Len(s))))

MarginalOk(cfg, los, p, s) ==
    /\ FLt(0, CapAt(cfg, los, p)) => FracIs(s, 0, "0.5", 6)
    /\ FLt("-0.9", CapAt(cfg, los, p)) => FracIs(s, -1, "0.158655254", "6.5")
    /\ FLt("1.1", CapAt(cfg, los, p)) => FracIs(s, 1, "0.841344746", "6.5")
    /\ ~Capped(cfg, los, p) =>
          /\ Near0(Mean(s), FDiv(6, FSqrt(Len(s))))
          /\ Near0(FSub(FDiv(FDot(s, s), Len(s)), 1), FDiv(FMul("6.5", FSqrt(2)), FSqrt(Len(s))))
(* correlation r of two samples; a is TRUE if one of them is capped *)
CorrelationOk(s, t, r, a) ==
    IF a THEN LET q == FDiv(FAdd(FDiv(PI, 2), FAsin(r)), PI)
              IN Near0(FSub(FDiv(Cardinality({i \in 1..Len(s) : Sgn(s[i]) = Sgn(t[i])}), Len(s)), q), FDiv(FMul(6, "0.5"), FSqrt(Len(s))))
    ELSE Near0(FSub(FDiv(FDot(s, t), Len(s)), r), FDiv(FMul("6.5", FSqrt(FAdd(1, FSqr(r)))), FSqrt(Len(s))))

Clauses(e) ==
    CASE e.ev = "begin" -> <<>>
      [] e.ev = "factors" ->
         LET B == Len(e.los) NB == Len(e.los[1]) NU == Len(e.los[1][1])
             K == (1..B) \X (1..NB) \X (1..NU)
             At(x, k) == x[k[1]][k[2]][k[3]]
         IN IF ~(HasShape(e.cross, <<B, NB, NU, 7, 7>>) /\ HasShape(e.spatial, <<B, NB, 7, NU, NU>>))
            THEN << <<"Shape", FALSE>> >>
            ELSE << <<"CrossCorrelation", \A k \in K : \A i, j \in 1..7 : i <= j =>
                        FNear(Prod(At(e.cross, k), i, j), CrossCorr(e.cfg, At(e.los, k), i, j), "1e-6", 0)>>,
                    <<"SpatialCorrelation", \A b \in 1..B : \A n \in 1..NB : \A p \in 1..7 : \A u, v \in 1..NU : u <= v =>
                        FNear(Prod(e.spatial[b][n][p], u, v),
                              SpatialCorr(e.cfg, p, u = v, Dist2D(e.ut[b][u], e.ut[b][v]), e.los[b][n][u], e.los[b][n][v]), "1e-6", 0)>> >>
      [] e.ev = "samples" ->   \* e.lsp[p][i][n][u] of many batch examples with the same placement; e.los[i][n][u]
         LET N == Len(e.los) NB == Len(e.los[1]) NU == Len(e.los[1][1])
             In(i, n, u, s) == e.los[i][n][u] = s
             Idx(n, u, s) == SelectSeq([i \in 1..N |-> i], LAMBDA i : In(i, n, u, s))
             Z == TLCEval([p \in 1..7 |-> TLCEval([n \in 1..NB |-> TLCEval([u \in 1..NU |-> TLCEval([i \in 1..N |->
                    IF Random(e.cfg, e.los[i][n][u], p) THEN Normal(e, p, e.los[i][n][u], e.lsp[p][i][n][u]) ELSE F(0)])])])])
             Sub(z, idx) == [j \in 1..Len(idx) |-> z[idx[j]]]
             Big(idx) == Len(idx) >= 200
             Vanish == \A p \in 1..7 : \A n \in 1..NB : \A u \in 1..NU : \A i \in 1..N :
                          Vanishing(LspMean(e.cfg, e.los[i][n][u], p)) => FEq(e.lsp[p][i][n][u], 0)
             Caps == \A p \in {2, 3, 6, 7} : \A n \in 1..NB : \A u \in 1..NU : \A i \in 1..N : FLe(e.lsp[p][i][n][u], FMul(Cap(p), "1.00001"))
             Marginals == \A s \in BOOLEAN : \A n \in 1..NB : \A u \in 1..NU :
                LET idx == TLCEval(Idx(n, u, s)) IN Big(idx) =>
                    \A p \in 1..7 : Random(e.cfg, s, p) => MarginalOk(e.cfg, s, p, TLCEval(Sub(Z[p][n][u], idx)))
             \* UTs far apart: the tabulated cross-correlations
             Alone(u) == \A v \in 1..NU : v = u \/ FLt(20000, Dist2D(e.ut[u], e.ut[v]))
             Cross == \A s \in BOOLEAN : \A n \in 1..NB : \A u \in 1..NU : Alone(u) =>
                LET idx == TLCEval(Idx(n, u, s)) IN Big(idx) =>
                    \A p, q \in 1..7 : (p < q /\ Spread(e.cfg, s, p) /\ Spread(e.cfg, s, q)) =>
                        CorrelationOk(TLCEval(Sub(Z[p][n][u], idx)), TLCEval(Sub(Z[q][n][u], idx)), CrossCorr(e.cfg, s, p, q),
                                      Capped(e.cfg, s, p) \/ Capped(e.cfg, s, q))
             Both(n, u, m, v, s, t) == SelectSeq([i \in 1..N |-> i], LAMBDA i : In(i, n, u, s) /\ In(i, m, v, t))
             PairOk(n, u, m, v, r(_, _, _)) == \A s, t \in BOOLEAN :
                LET idx == TLCEval(Both(n, u, m, v, s, t)) IN Big(idx) =>
                    \A p \in 1..7 : (Spread(e.cfg, s, p) /\ Spread(e.cfg, t, p)) =>
                        CorrelationOk(TLCEval(Sub(Z[p][n][u], idx)), TLCEval(Sub(Z[p][m][v], idx)), r(p, s, t),
                                      Capped(e.cfg, s, p) \/ Capped(e.cfg, t, p))
             Spatial == \A n \in 1..NB : \A u, v \in 1..NU : u < v =>
                PairOk(n, u, n, v, LAMBDA p, s, t : SpatialCorr(e.cfg, p, FALSE, Dist2D(e.ut[u], e.ut[v]), s, t))
             Sites == \A n, m \in 1..NB : n < m => \A u \in 1..NU : PairOk(n, u, m, u, LAMBDA p, s, t : 0)
             \* consecutive batch examples
             Examples == \A p \in 1..7 : (Spread(e.cfg, TRUE, p) /\ Spread(e.cfg, FALSE, p)) =>
                CorrelationOk(SubSeq(Z[p][1][1], 1, N - 1), SubSeq(Z[p][1][1], 2, N), 0, Capped(e.cfg, TRUE, p) \/ Capped(e.cfg, FALSE, p))
         IN IF ~\A p \in 1..7 : HasShape(e.lsp[p], <<N, NB, NU>>) THEN << <<"Shape", FALSE>> >>
            ELSE << <<"Vanishing", Vanish>>, <<"Caps", Caps>>, <<"Marginals", Marginals>>, <<"CrossCorrelated", Cross>>,
                    <<"SpatiallyCorrelated", Spatial>>, <<"SitesUncorrelated", Sites>>, <<"ExamplesUncorrelated", Examples>> >>
      [] OTHER -> << <<"Completes", FALSE>> >>

Init == l = 1
Next == \/ l <= Len(Trace) /\ Judge(l, Clauses(Trace[l])) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done /\ l' = l + 1
===============================================================================
