-------------------------------- MODULE Tr_N02 --------------------------------
(* Recorded histories: life time and statistics of large-scale parameters and of the random pathloss *)
EXTENDS ScenarioTrace

(* a drawn parameter i of a link in state los is a plausible sample *)
Plausible(s, v, i, los) ==
    LET m == LspMean(s.cfg, los, i)  d == LspStd(s.cfg, los, i)
        B(z) == FPow(10, FAdd(m, FMul(z, d)))
    IN IF Vanishing(m) THEN FEq(v, 0)
       ELSE /\ FLe(FMin(FMul("0.9999", B(-8)), Cap(i)), v)
            /\ FLe(v, FMul("1.0001", FMin(Cap(i), B(8))))

SetClauses(s, e) ==
    IF ~e.ok THEN <<>>
    ELSE LET n == After(s, e)  o == e.obs IN
    IF ~HasShape(o.basic, LinkShape(n)) \/ ~HasShape(o.los, LinkShape(n)) \/ ~HasShape(o.d3, LinkShape(n))
    THEN << <<"Shape", FALSE>> >>
    ELSE << <<"Statistics", StatsOk(n, o)>>, <<"BasicPathloss", BasicOk(n, o)>>,
            <<"PathlossHeld", (Conf(s) /\ ~Trigger(e)) => o.basic = s.obs.basic>>,
            <<"PathlossRedrawn", (Conf(s) /\ Trigger(e) /\ n.sfon /\ LinkShape(s) = LinkShape(n)) =>
                LET A == [b \in 1..BS(n) |-> [i \in 1..NB(n) |-> [u \in 1..NU(n) |-> FSub(o.basic[b][i][u], Det(n, o, <<b, i, u>>))]]]
                    C == [b \in 1..BS(n) |-> [i \in 1..NB(n) |-> [u \in 1..NU(n) |-> FSub(s.obs.basic[b][i][u], Det(s, s.obs, <<b, i, u>>))]]]
                IN Cardinality({k \in Links(n) : FNear(At(A, k), At(C, k), "1e-5", 0)}) * 4 <= Cardinality(Links(n))
                   \/ Cardinality(Links(n)) < 3>> >>

(* the correlation factors in force belong to the current topology *)
FactorTol(s) == IF Dbl(s) THEN "1e-6" ELSE "5e-3"
CrossOk(s, e) ==
    /\ HasShape(e.cross, LinkShape(s) \o <<7, 7>>)
    /\ \A k \in Links(s) : LET f == At(e.cross, k) IN
         \A i, j \in 1..7 : i <= j => FNear(FDot(f[i], f[j]), CrossCorr(s.cfg, At(s.obs.los, k), i, j), "1e-5", 0)
SpatialOk(s, e) ==
    /\ HasShape(e.spatial, <<BS(s), NB(s), 7, NU(s), NU(s)>>)
    /\ \A b \in 1..BS(s) : \A n \in 1..NB(s) : \A p \in 1..7 : \A u, v \in 1..NU(s) : u <= v =>
         FNear(FDot(e.spatial[b][n][p][u], e.spatial[b][n][p][v]),
               SpatialCorr(s.cfg, p, u = v, Dist2D(s.inp.ut_loc[b][u], s.inp.ut_loc[b][v]), s.obs.los[b][n][u], s.obs.los[b][n][v]), FactorTol(s), 0)

CallClauses(s, e) ==
    LET shp == LinkShape(s)
        sane == Len(e.lsp) = 7 /\ \A i \in 1..7 : HasShape(e.lsp[i], shp)
        rx == IF s.cfg.dir = "uplink" THEN NB(s) ELSE NU(s)
        tx == IF s.cfg.dir = "uplink" THEN NU(s) ELSE NB(s)
        rxa == IF s.cfg.dir = "uplink" THEN e.bsa ELSE e.uta
        txa == IF s.cfg.dir = "uplink" THEN e.uta ELSE e.bsa
        np == e.ashape[6]
        held == s.lsp # <<>> /\ ~s.always /\ ~s.since
        comparable == s.lsp # <<>> /\ Len(s.lsp) = 7 /\ HasShape(s.lsp[4], shp)
        loss(k) == IF s.plon THEN FSum(<<At(s.obs.basic, k), At(s.obs.gas, k), At(s.obs.scint, k), At(s.obs.entry, k)>>) ELSE F(0)
        shadow(k) == IF s.sfon THEN FMul(10, FLog10(At(e.lsp[4], k))) ELSE F(0)
    IN IF ~sane THEN << <<"LspShape", FALSE>> >>
       ELSE << <<"Shape", /\ e.ashape = <<BS(s), rx, rxa, tx, txa, np, e.nt>>
                          /\ e.tshape = <<BS(s), rx, tx, np>> /\ np >= e.ncl>>,
               <<"Held", held => e.lsp = s.lsp>>,
               <<"Fresh", (~held /\ comparable) => (Redrawn(s, e.lsp[1], s.lsp[1]) /\ Redrawn(s, e.lsp[4], s.lsp[4]))>>,
               <<"CurrentStatistics", \A k \in Links(s) : \A i \in 1..7 : Plausible(s, At(e.lsp[i], k), i, At(s.obs.los, k))>>,
               <<"CrossCorrelation", CrossOk(s, e)>>, <<"SpatialCorrelation", SpatialOk(s, e)>>,
               <<"UsedKFactor", e.link.k = e.lsp[5]>>,
               <<"Attenuation", \A k \in Links(s) : FNear(At(e.att, k), FSub(loss(k), shadow(k)), "5e-3", 0)>> >>

Clauses(s, e) ==
    CASE e.ev \in {"begin", "make"} -> <<>>
      [] e.ev = "set" -> SetClauses(s, e)
      [] e.ev = "call" -> CallClauses(s, e)
      [] OTHER -> << <<"Completes", FALSE>> >>

Init == l = 1 /\ st = Nothing
Next == \/ l <= Len(Trace) /\ Judge(l, Clauses(st, Trace[l])) /\ l' = l + 1 /\ st' = After(st, Trace[l])
        \/ l = Len(Trace) + 1 /\ Done /\ l' = l + 1 /\ UNCHANGED st
===============================================================================
