------------------------------- MODULE TraceLib -------------------------------
(***************************************************************************)
(* Checking a recorded trace of the implementation.  A trace is a sequence *)
(* of events; each event is judged by a sequence of clauses <<name, b>>.   *)
(* The verdict is total: every failing clause is printed with the line it  *)
(* fails on, and the trace is followed to its end in any case.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, FloatMath

Trace == FLoadNdJson(IOEnv.TRACE)

(* PrintT is evaluated in order, "AT" marks the event being interpreted *)
Judge(l, clauses) ==
    /\ PrintT(<<"AT", l>>)
    /\ \A i \in DOMAIN clauses :
          IF clauses[i][2] THEN TRUE ELSE PrintT(<<"FAIL", l, clauses[i][1]>>)

Done == PrintT(<<"DONE", Len(Trace)>>)

(* shape of a nested sequence, to the depth of the expected shape *)
RECURSIVE HasShape(_, _)
HasShape(x, s) ==
    \/ s = <<>>
    \/ Len(x) = Head(s) /\ \A i \in 1..Len(x) : HasShape(x[i], Tail(s))

(* clause sequences *)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
All(S, P(_)) == \A x \in S : P(x)
Has(e, f) == f \in DOMAIN e
===============================================================================
