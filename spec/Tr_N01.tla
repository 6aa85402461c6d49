-------------------------------- MODULE Tr_N01 --------------------------------
(* Recorded histories: retained inputs, derived quantities, admission, quiet updates *)
EXTENDS ScenarioTrace

SetClauses(s, e) ==
    LET n == After(s, e)  o == e.obs IN
    << <<"Admission", e.ok <=> Admit(s, e)>>,
       <<"Environment", EnvOk(n, e.envobs)>>,
       <<"Doppler", e.dopobs = n.dop>> >>
    \o (IF ~Conf(n) \/ ~(e.ok <=> Admit(s, e)) THEN <<>>
        ELSE << <<"Inputs", InputsOk(n, o)>>, <<"Distances", DistanceOk(n, o)>>, <<"Angles", AnglesOk(n, o)>>,
                <<"Losses", LossesOk(n, o)>>, <<"Shape", HasShape(o.los, LinkShape(n)) /\ StatsOk(n, o)>>,
                <<"Quiet", (Conf(s) /\ ~Trigger(e)) =>
                    (o.los = s.obs.los /\ o.basic = s.obs.basic /\ o.d2in = s.obs.d2in /\ o.lsp = s.obs.lsp)>> >>)

(* a realisation uses the topology of the latest inputs; fields *_l are laid out per link (BS, UT) *)
CallClauses(s, e) ==
    LET t == e.link  o == s.obs IN
    << <<"UsesInputs", /\ t.velocities = s.inp.ut_velocities
                       /\ t.ut_orientations = s.inp.ut_orientations /\ t.bs_orientations = s.inp.bs_orientations>>,
       <<"UsesLinkState", t.los = o.los /\ t.d3 = o.d3>>,
       <<"UsesAngles", \A k \in Links(s) :
            /\ FNear(At(t.aod, k), Rad(At(o.aod, k)), "1e-5", 0) /\ FNear(At(t.aoa, k), Rad(At(o.aoa, k)), "1e-5", 0)
            /\ FNear(At(t.zod, k), Rad(At(o.zod, k)), "1e-5", 0) /\ FNear(At(t.zoa, k), Rad(At(o.zoa, k)), "1e-5", 0)>> >>

Clauses(s, e) ==
    CASE e.ev \in {"begin", "make"} -> <<>>
      [] e.ev = "set" -> SetClauses(s, e)
      [] e.ev = "call" -> CallClauses(s, e)
      [] OTHER -> << <<"Completes", FALSE>> >>

Init == l = 1 /\ st = Nothing
Next == \/ l <= Len(Trace) /\ Judge(l, Clauses(st, Trace[l])) /\ l' = l + 1 /\ st' = After(st, Trace[l])
        \/ l = Len(Trace) + 1 /\ Done /\ l' = l + 1 /\ UNCHANGED st
===============================================================================
