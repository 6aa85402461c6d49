-------------------------------- MODULE Tr_N12 --------------------------------
(* Recorded paths against the sub-cluster structure *)
EXTENDS SysLib
VARIABLE l

Asc(d) == \A i \in 1..(Len(d) - 1) : FLe(d[i], d[i + 1])
(* sum over all paths, per element pair and time *)
PathSum(H, u, s, i) == CSum([p \in 1..Len(H) |-> H[p][u][s][i]])
Clauses(e) ==
    CASE e.ev = "begin" -> <<>>
      [] e.ev = "cir" ->
         IF ~CirShape(e) THEN << <<"PathCount", FALSE>> >>
         ELSE LET On(P(_, _)) == \A k \in CirLinks(e) : P(k, CirLink(e, k[1], k[2], k[3]))
                  H(k) == e.h[k[1]][k[2]][k[3]]
                  D(k) == e.delays[k[1]][k[2]][k[3]]
                  Ordered(k, L) == Asc(D(k))
                  Del(k, L) == FNearAll(D(k), Delays(L), "1e-16", "1e-9")
                  Cof(k, L) == FNearAll(H(k), Coef(L, SampleTimes(e.nt, e.fs)), PhaseTol(L), "1e-7")
                  Lossless(k, L) == L.los \/
                      FNearAll(PathSum(H(k), 1, 1, 1),
                               CSum([n \in 1..Len(L.P) |-> Bundle(L, n, [m \in 1..NRays(L) |-> m], <<0>>)[1][1][1]]), "1e-7", "1e-7")
              IN << <<"Ascending", On(Ordered)>>, <<"PathDelays", On(Del)>>, <<"PathCoefficients", On(Cof)>>,
                    <<"Lossless", On(Lossless)>> >>
      [] e.ev = "sys" ->       \* a whole model after changes of its topology
         IF ~SysShape(e) THEN << <<"PathCount", FALSE>> >>
         ELSE << <<"PathDelays", \A k \in SysLinks(e) : FNearAll(OutDelay(e, k), Delays(SysLink(e, k)), "1e-15", "1e-9")>>,
                 <<"PathCoefficients", \A k \in SysLinks(e) : SysCoefOk(e, k)>> >>
      [] OTHER -> << <<"Completes", FALSE>> >>

Init == l = 1
Next == \/ l <= Len(Trace) /\ Judge(l, Clauses(Trace[l])) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done /\ l' = l + 1
===============================================================================
