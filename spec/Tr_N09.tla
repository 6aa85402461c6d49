-------------------------------- MODULE Tr_N09 --------------------------------
(* Recorded realisations against the specified layout and link alignment *)
EXTENDS SysLib
VARIABLE l

Clauses(e) ==
    CASE e.ev = "begin" -> <<>>
      [] e.ev = "sys" ->
         IF ~SysShape(e) THEN << <<"Layout", FALSE>> >>
         ELSE LET Los(k) == e.los[k[1]][k[2]][k[3]]
              IN << <<"LinkDelays", \A k \in SysLinks(e) : FNearAll(OutDelay(e, k), Delays(SysLink(e, k)), "1e-15", "1e-9")>>,
                    <<"LosLinkCoefficients", \A k \in SysLinks(e) : Los(k) => SysCoefOk(e, k)>>,
                    <<"NlosLinkCoefficients", \A k \in SysLinks(e) : ~Los(k) => SysCoefOk(e, k)>> >>
      [] OTHER -> << <<"Completes", FALSE>> >>

Init == l = 1
Next == \/ l <= Len(Trace) /\ Judge(l, Clauses(Trace[l])) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done /\ l' = l + 1
===============================================================================
