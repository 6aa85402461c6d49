-------------------------------- MODULE Tr_N15 --------------------------------
(* Recorded coefficients of satellite and other links against the Faraday rotation *)
EXTENDS CirLib
VARIABLE l

Clauses(e) ==
    CASE e.ev = "begin" -> <<>>
      [] e.ev = "cir" ->
         IF ~CirShape(e) THEN << <<"Shape", FALSE>> >>
         ELSE LET Sat(k) == FLe(SatHeight, e.hb[k[1]][BsOf(e, k[2], k[3])])
                  Los(k) == e.topo.los[k[1]][k[2]][k[3]]
                  On(s, o) == \A k \in CirLinks(e) : (Sat(k) = s /\ Los(k) = o) => CoefOk(e, k, PhaseTol)
              IN << <<"SatelliteLos", On(TRUE, TRUE)>>, <<"SatelliteNlos", On(TRUE, FALSE)>>,
                    <<"LowLos", On(FALSE, TRUE)>>, <<"LowNlos", On(FALSE, FALSE)>> >>
      [] OTHER -> << <<"Completes", FALSE>> >>

Init == l = 1
Next == \/ l <= Len(Trace) /\ Judge(l, Clauses(Trace[l])) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done /\ l' = l + 1
===============================================================================
