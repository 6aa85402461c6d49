-------------------------------- MODULE Tr_N24 --------------------------------
(* Recorded installations against Install *)
EXTENDS TraceLib, Install
VARIABLE l

Clauses(e) ==
    IF e.ev # "op" THEN << <<"Completes", e.ev \in {"begin", "end"}>> >>
    ELSE
    LET want == Integrated(e.before)
        whole == e.op \in {"run", "script"}
        at == Imports(e.before, Import901)
        atEnd == at # {} /\ First(at) = Len(e.before)
    IN << <<"Complete", e.after = e.before \/ e.after = want>>,
          <<"Integrates", whole => e.after = want>>,
          <<"NothingLost", Keeps(e.before, e.after)>>,
          <<"LeftAlone", (want = e.before) => e.same>>,
          <<"LastLineEnd", e.same \/ atEnd \/ e.eol1 = e.eol0>>,
          <<"Importable", e.ok0 => e.ok1>>,
          <<"Permissions", e.mode1 = e.mode0>>,
          <<"Link", e.link = (IF e.op = "script" THEN "right" ELSE e.link0)>>,
          <<"NothingElse", whole => \A i \in DOMAIN e.rest1 : \E j \in DOMAIN e.rest0 : e.rest0[j] = e.rest1[i]>>,
          <<"NothingRemoved", \A i \in DOMAIN e.first : \E j \in DOMAIN e.rest1 : e.first[i] = e.rest1[j]>> >>

Init == l = 1
Next == \/ l <= Len(Trace) /\ Judge(l, Clauses(Trace[l])) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done /\ l' = l + 1
===============================================================================
