-------------------------------- MODULE Tr_N11 --------------------------------
(* Recorded ray angles, coupling and cross-polarisation against Rays *)
EXTENDS TraceLib, Rays
VARIABLE l

At(x, k) == x[k[1]][k[2]][k[3]]
LinksOf(e) == (1..Len(e.los)) \X (1..Len(e.los[1])) \X (1..Len(e.los[1][1]))
Shape(e, x) == HasShape(x, <<Len(e.los), Len(e.los[1]), Len(e.los[1][1]), NumClustersMax(e.cfg), NumRays>>)
Used(e, k) == NumClusters(e.cfg, At(e.los, k))
Tol == "1e-6"

LosAngle(e, k, kind) ==
    LET bs == e.bs[k[1]][k[2]] ut == e.ut[k[1]][k[3]]
    IN CASE kind = "aoa" -> Aoa(bs, ut) [] kind = "aod" -> Aod(bs, ut) [] kind = "zoa" -> Zoa(bs, ut)
         [] kind = "zod" -> FAdd(Zod(bs, ut), ZodOffset(At(e.los, k), Dist2D(bs, ut)))
High(e, k) == InSpace(e.bs[k[1]][k[2]][3])
Intra(e, k, kind) == IntraSpread(e.cfg, At(e.los, k), kind)
(* no spread is left at a BS in space *)
Spread(e, k, kind, s) == IF Departs(kind) /\ High(e, k) THEN F(0) ELSE F(s)
Distance(e, k, kind, s, P, n) ==
    IF kind \in {"aoa", "aod"} THEN AzDistance(e.cfg, At(e.los, k), At(e.k, k), s, P, n)
    ELSE ZenDistance(e.cfg, At(e.los, k), At(e.k, k), s, P, n)
(* clusters with a centre that is known exactly *)
Exact(e, k, kind, n) == (Departs(kind) /\ High(e, k)) \/ (At(e.los, k) /\ n = 1)

ClusterRays(e, k, kind, a, n) ==
    IF Exact(e, k, kind, n) THEN TRUE ELSE HasCentre(kind, Intra(e, k, kind), a[n], Tol)
ExactRays(e, k, kind, a, n) ==
    Exact(e, k, kind, n) => RaysAround(kind, LosAngle(e, k, kind), Intra(e, k, kind), a[n], Tol)

Away(kind, x, y) == IF kind \in {"aoa", "aod"} THEN AngDist(x, y) ELSE FMin(AngDist(x, y), AngDist(FNeg(x), y))
ClusterAngle(e, k, n) ==
    LET kind == e.kind a == At(e.a, k) P == At(e.P, k)
        s == Spread(e, k, kind, At(e.spread, k))
        los == At(e.los, k)
        c == TLCEval(Centre(kind, Intra(e, k, kind), a[n], Tol))
        D == TLCEval(Distance(e, k, kind, s, P, n)) D1 == TLCEval(Distance(e, k, kind, s, P, 1))
        lim == FAdd(FMul(FDiv(s, 7), IF los THEN "9.2" ELSE "6.5"), Tol)
        base == LosAngle(e, k, kind)
    IN Exact(e, k, kind, n) \/
       \E x \in {1, -1} : \E y \in (IF los THEN {1, -1} ELSE {0}) :
          FLe(Away(kind, c, FAdd(base, FSub(FMul(x, D), FMul(y, D1)))), lim)

(* the public call: angles in radian and in coupled order *)
PublicAngles(e, kind, D(_, _)) ==
    \A k \in LinksOf(e) :
      LET one(x) == <<<<<<x>>>>>>
          r == [cfg |-> e.cfg, kind |-> kind, los |-> one(At(e.los, k)), a |-> one(TLCEval(D(kind, k))), k |-> one(At(e.k, k)),
                spread |-> one(At(e.spreads[kind], k)), P |-> one(AnglePowers(At(e.los, k), At(e.k, k), At(e.P, k))),
                ut |-> <<<<e.ut[k[1]][k[3]]>>>>, bs |-> <<<<e.bs[k[1]][k[2]]>>>>]
      IN \A n \in 1..Used(e, k) : ClusterAngle(r, <<1, 1, 1>>, n)
Ranges(kind, a) == \A n \in DOMAIN a : \A m \in DOMAIN a[n] : InRange(kind, a[n][m])
DegOf(a) == TLCEval([n \in 1..Len(a) |-> [m \in 1..Len(a[n]) |-> Deg(a[n][m])]])

(* mean of a cluster's rays relative to a direction, for rays that are not folded *)
Rel(kind, a, base) == LET w(x) == IF kind \in {"aoa", "aod"} THEN Wrap180(x) ELSE F(x)
                      IN Mean([m \in 1..Len(a) |-> w(FSub(a[m], base))])

Intra2(e, kind) == IntraSpread(e.cfg, e.los, kind)
(* rank of the m-th offset of the table *)
SortedOffset(m) == IF m % 2 = 1 THEN 10 + (m + 1) \div 2 ELSE 11 - m \div 2
Clauses(e) ==
    CASE e.ev = "begin" -> <<>>
      [] e.ev = "angles" ->
         IF ~Shape(e, e.a) THEN << <<"Shape", FALSE>> >>
         ELSE LET K == LinksOf(e) kind == e.kind
                  centres == \A k \in K : \A n \in 1..Used(e, k) : ClusterRays(e, k, kind, At(e.a, k), n)
              IN << <<"Range_" \o kind, \A k \in K : Ranges(kind, At(e.a, k))>>,
                    <<"ExactRays_" \o kind, \A k \in K : \A n \in 1..Used(e, k) : ExactRays(e, k, kind, At(e.a, k), n)>>,
                    <<"RayOffsets_" \o kind, centres>>,
                    <<"ClusterAngle_" \o kind, ~centres \/ \A k \in K : \A n \in 1..Used(e, k) : ClusterAngle(e, k, n)>> >>
      [] e.ev = "rays" ->
         IF ~\A kind \in Kinds : Shape(e, e.rays[kind]) THEN << <<"Shape", FALSE>> >>
         ELSE LET K == LinksOf(e)
                  D(kind, k) == DegOf(At(e.rays[kind], k))
                  Range(kind) == \A k \in K : \A n \in 1..Len(At(e.rays[kind], k)) : \A m \in 1..NumRays :
                      LET x == Deg(At(e.rays[kind], k)[n][m])
                      IN IF kind \in {"aoa", "aod"} THEN FLe("-180.000001", x) /\ FLe(x, "180.000001")
                         ELSE FLe("-0.000001", x) /\ FLe(x, "180.000001")
                  rays == [kind \in Kinds |-> Range(kind) /\ \A k \in K : LET d == D(kind, k) IN
                                       \A n \in 1..Used(e, k) : /\ ExactRays(e, k, kind, d, n)
                                                               /\ ClusterRays(e, k, kind, d, n)]
                  kinds == <<"aoa", "aod", "zoa", "zod">>
              IN [j \in 1..4 |-> <<"Rays_" \o kinds[j], rays[kinds[j]]>>]
                 \o [j \in 1..4 |-> <<"ClusterAngle_" \o kinds[j], ~rays[kinds[j]] \/ PublicAngles(e, kinds[j], D)>>]
                 \o << <<"XprPositive", \A k \in K : \A n \in 1..Len(At(e.rays.xpr, k)) : \A m \in 1..NumRays :
                            FLt(0, At(e.rays.xpr, k)[n][m]) /\ FIsFinite(At(e.rays.xpr, k)[n][m])>> >>
      [] e.ev = "astats" ->     \* independent links in one state, first cluster strongest, nothing folded
         LET N == Len(e.a) n == NumClusters(e.cfg, e.los) kind == e.kind
             base(i) == LET bs == e.bs[i] ut == e.ut[i]
                        IN CASE kind = "aoa" -> Aoa(bs, ut) [] kind = "aod" -> Aod(bs, ut) [] kind = "zoa" -> Zoa(bs, ut)
                             [] kind = "zod" -> FAdd(Zod(bs, ut), ZodOffset(e.los, Dist2D(bs, ut)))
             \* distance in units of the deviation spread/7
             d == TLCEval([j \in 1..n |-> TLCEval([i \in 1..N |-> FDiv(Rel(kind, e.a[i][j], base(i)), FDiv(e.spread[i], 7))])])
             D(i, j) == FDiv(IF kind \in {"aoa", "aod"} THEN AzDistance(e.cfg, e.los, e.k[i], e.spread[i], e.P[i], j)
                             ELSE ZenDistance(e.cfg, e.los, e.k[i], e.spread[i], e.P[i], j), FDiv(e.spread[i], 7))
             sg == TLCEval([j \in 1..n |-> [i \in 1..N |-> IF FLt(d[j][i], 0) THEN -1 ELSE 1]])
             r == TLCEval([j \in 1..n |-> TLCEval([i \in 1..N |-> FSub(FMul(sg[j][i], d[j][i]), D(i, j))])])
             sd == IF e.los THEN FSqrt(2) ELSE F(1)
             J == 2..n
             \* pairs of links of other UTs, of other BSs, of both, of other examples
             P2(k) == [m \in 1..(N \div 2) |-> <<4 * ((m - 1) \div 2) + k[1 + (m % 2)][1], 4 * ((m - 1) \div 2) + k[1 + (m % 2)][2]>>]
             Pairs == TLCEval(<<P2(<<<<1, 2>>, <<3, 4>>>>), P2(<<<<1, 3>>, <<2, 4>>>>), P2(<<<<1, 4>>, <<2, 3>>>>),
                                [i \in 1..(N - 4) |-> <<i, i + 4>>]>>)
             Apart(x, D2, S) == \A y \in S : MeanIs([m \in 1..Len(Pairs[y]) |-> FMul(x[Pairs[y][m][1]], x[Pairs[y][m][2]])], 0, D2, "6.5")
             \* UTs of a BS may share their signs
             two == FSqrt(2)
         IN << <<"DistanceMean_" \o kind, \A j \in J : MeanIs(r[j], 0, sd, 6)>>,
               <<"DistanceVariance_" \o kind, \A j \in J : NormalSquares(r[j], sd, "6.5")>>,
               <<"FirstCluster_" \o kind, IF e.los THEN \A i \in 1..N : FNear(d[1][i], 0, "1e-6", 0)
                                          ELSE MeanIs(d[1], 0, 1, 6) /\ NormalSquares(d[1], 1, "6.5")>>,
               <<"SignsFair_" \o kind, \A j \in J : MeanIs(sg[j], 0, two, 6)>>,
               <<"SignsIndependent_" \o kind, \A i, j \in J : i < j => MeanIs([m \in 1..N |-> sg[i][m] * sg[j][m]], 0, two, 6)>>,
               <<"RandomPartsIndependent_" \o kind, \A i, j \in J : (i < j /\ ~e.los) => MeanIs([m \in 1..N |-> FMul(r[i][m], r[j][m])], 0, 1, "6.5")>>,
               <<"LinksIndependent_" \o kind, \A j \in J : Apart(r[j], FSqr(sd), 1..4)>>,
               <<"SignsOfLinks_" \o kind, \A j \in J : Apart(sg[j], two, 2..4)>> >>
      [] e.ev = "couple" ->     \* per kind: clusters with rays numbered 1..20 (plus 100 * cluster number)
         LET N == Len(e.out.aoa)
             perm(kind) == \A i \in 1..N : FNearAll(Sorted(e.out[kind][i]), [m \in 1..NumRays |-> FAdd(m, e.tag[i])], 0, 0)
             no(kind, i, m) == FToInt(FSub(e.out[kind][i][m], e.tag[i]))
             ok == \A kind \in Kinds : perm(kind)
             num == TLCEval([kind \in Kinds |-> TLCEval([i \in 1..N |-> TLCEval([m \in 1..NumRays |-> no(kind, i, m)])])])
             Fixed(kind) == [i \in 1..N |-> Cardinality({m \in 1..NumRays : num[kind][i][m] = m})]
             Shared(p, q) == [i \in 1..N |-> Cardinality({m \in 1..NumRays : num[p][i][m] = num[q][i][m]})]
             Corr(kind) == [i \in 1..N |-> FDiv(FSub(FDot([m \in 1..NumRays |-> m], num[kind][i]), 2205), "152.5615")]
         IN << <<"CouplingPermutes", ok>> >> \o
            (IF ~ok THEN <<>> ELSE
            << <<"CouplingUniform", \A kind \in Kinds : MeanIs(Fixed(kind), 1, 1, 6) /\ MeanIs(Corr(kind), 0, 1, 6)>>,
               <<"CouplingIndependent", \A p, q \in Kinds : p # q => MeanIs(Shared(p, q), 1, 1, 6)>> >>)
      [] e.ev = "pcouple" ->    \* order of the rays of the public call; unfolded angles
         LET N == Len(e.rays.aoa)
             K == {kind \in Kinds : FLt("1e-4", Intra2(e, kind))}
             d(kind, i) == LET a == e.rays[kind][i] IN TLCEval([m \in 1..NumRays |-> Wrap180(FSub(Deg(a[m]), Deg(a[1])))])
             num == TLCEval([kind \in K |-> TLCEval([i \in 1..N |-> LET o == TLCEval(FArgSort(d(kind, i))) IN
                        TLCEval([m \in 1..NumRays |-> CHOOSE j \in 1..NumRays : o[j] = m])])])
             Shared(p, q) == [i \in 1..N |-> Cardinality({m \in 1..NumRays : num[p][i][m] = num[q][i][m]})]
             Corr(kind) == [i \in 1..N |-> FDiv(FSub(FDot([m \in 1..NumRays |-> m], num[kind][i]), 2205), "152.5615")]
         IN << <<"PublicCoupling", \A kind \in K : MeanIs(Corr(kind), 0, 1, 6)
                    /\ MeanIs([i \in 1..N |-> Cardinality({m \in 1..NumRays : num[kind][i][m] = SortedOffset(m)})], 1, 1, 6)>>,
               <<"PublicCouplingIndependent", \A p, q \in K : p # q => MeanIs(Shared(p, q), 1, 1, 6)>> >>
      [] e.ev = "xpr" ->        \* x: [link][cluster][ray]
         LET N == Len(e.x)
             z(i, n, m) == FDiv(FSub(Db(e.x[i][n][m]), Par(e.cfg, e.lospl[i], "muXPR")), Par(e.cfg, e.lospl[i], "sigmaXPR"))
             nc == Len(e.x[1])
             Z == TLCEval([i \in 1..N |-> TLCEval([n \in 1..nc |-> TLCEval([m \in 1..NumRays |-> z(i, n, m)])])])
             All2(S) == FFlatten([j \in 1..Len(S) |-> Z[S[j]]])
             Idx(los) == SelectSeq([i \in 1..N |-> i], LAMBDA i : e.lospl[i] = los)
             Pair(P(_)) == [i \in 1..N |-> P(Z[i])]
         IN << <<"XprShape", \A i \in 1..N : Len(e.x[i]) = nc /\ \A n \in 1..nc : Len(e.x[i][n]) = NumRays>>,
               <<"XprMean", \A los \in BOOLEAN : LET s == All2(Idx(los)) IN Len(s) > 0 => MeanIs(s, 0, 1, 6)>>,
               <<"XprDeviation", \A los \in BOOLEAN : LET s == All2(Idx(los)) IN Len(s) > 0 => NormalSquares(s, 1, "6.5")>>,
               <<"XprPerRay", MeanIs(Pair(LAMBDA x : FMul(x[1][1], x[1][2])), 0, 1, "6.5")
                              /\ MeanIs(Pair(LAMBDA x : FMul(x[1][5], x[2][5])), 0, 1, "6.5")>>,
               <<"XprPerLink", \A s \in 1..4 : MeanIs([i \in 1..(N - s) |-> FMul(Z[i][1][3], Z[i + s][1][3])], 0, 1, "6.5")>> >>
      [] OTHER -> << <<"Completes", FALSE>> >>

Init == l = 1
Next == \/ l <= Len(Trace) /\ Judge(l, Clauses(Trace[l])) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done /\ l' = l + 1
===============================================================================
