-------------------------------- MODULE Tr_N05 --------------------------------
(* Recorded outcomes of constructors *)
EXTENDS TraceLib, Admission
VARIABLE l

Clauses(e) ==
    CASE e.ev = "begin" -> <<>>
      [] e.ev = "model" -> << <<IF ModelOk(e) THEN "Accepts" ELSE "Refuses", e.ok <=> ModelOk(e)>> >>
      [] e.ev = "array" -> << <<IF PanelOk(e) THEN "AcceptsArray" ELSE "RefusesArray", e.ok <=> PanelOk(e)>> >>
      [] e.ev = "element" -> << <<"Element", e.ok <=> e.pattern \in ArrayPatterns>> >>
      [] e.ev = "topology" -> << <<"TopologyName", e.ok <=> e.name \in TopologyNames>> >>
      [] e.ev = "field" -> << <<"UsableArray", FAllFinite(e.field)>> >>
      [] e.ev = "channel" ->
         << <<"Shape", e.ashape = <<e.b, e.nrx, 1, e.ntx, 1, e.np, 1>> /\ e.np >= 1>>,
            <<"Finite", FAllFinite(e.a) /\ FAllFinite(e.tau)>>,
            <<"Delays", \A t \in 1..Len(e.tau) : FLe(0, e.tau[t])>>,
            <<"NotSilent", FLt(0, FSum(e.energy))>> >>
      [] OTHER -> << <<"Completes", FALSE>> >>

Init == l = 1
Next == \/ l <= Len(Trace) /\ Judge(l, Clauses(Trace[l])) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done /\ l' = l + 1
===============================================================================
