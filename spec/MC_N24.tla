-------------------------------- MODULE MC_N24 --------------------------------
(***************************************************************************)
(* Installing as a machine: any history of installations of the two kinds  *)
(* (the Python script alone, or the shell script, which also links), with  *)
(* failing writes and crashes between any two steps.  The channel module   *)
(* of Sionna is complete at every moment.                                  *)
(* Gen: contents, links and histories of operations.                       *)
(***************************************************************************)
EXTENDS Install, Json, TLC
CONSTANTS MaxLen, MaxOps
VARIABLES file, init, link, tmp, pc, ops

vars == <<file, init, link, tmp, pc, ops>>
Lines == {"other", Import901, Import811}
Files == {f \in UNION {[1..n -> Lines] : n \in 0..MaxLen} :
             Cardinality(Imports(f, Import811)) <= 1 /\ Cardinality(Imports(f, Import901)) <= 1}
Links == {"none", "right", "stale", "dangling"}
Init == /\ file \in Files /\ init = file /\ link \in Links
        /\ tmp = <<>> /\ pc = "idle" /\ ops = <<>>

Start == pc = "idle" /\ Len(ops) < MaxOps /\ \E o \in {"run", "script"} :
            ops' = Append(ops, o) /\ pc' = "read" /\ UNCHANGED <<file, init, link, tmp>>
Op == ops[Len(ops)]
Then(p) == IF Op = "script" THEN "link" ELSE p
Read == pc = "read" /\ (IF Integrated(file) = file THEN pc' = Then("idle") ELSE pc' = "write")
        /\ UNCHANGED <<file, init, link, tmp, ops>>
(* the new text is written beside the old, some lines at first *)
Write == pc = "write" /\ \E n \in 0..Len(Integrated(file)) :
            /\ tmp' = SubSeq(Integrated(file), 1, n)
            /\ pc' = IF n = Len(Integrated(file)) THEN "replace" ELSE "write"
         /\ UNCHANGED <<file, init, link, ops>>
Replace == pc = "replace" /\ file' = tmp /\ tmp' = <<>> /\ pc' = Then("idle") /\ UNCHANGED <<init, link, ops>>
Link == pc = "link" /\ link' = "right" /\ pc' = "idle" /\ UNCHANGED <<file, init, tmp, ops>>
(* a failing write is reported and the script goes on; a crash ends it *)
Fails == pc = "write" /\ pc' = Then("idle") /\ ops' = [ops EXCEPT ![Len(ops)] = "failed"] /\ UNCHANGED <<file, init, link, tmp>>
Crash == pc # "idle" /\ pc' = "idle" /\ ops' = [ops EXCEPT ![Len(ops)] = "failed"] /\ UNCHANGED <<file, init, link, tmp>>
Next == Start \/ Read \/ Write \/ Replace \/ Link \/ Fails \/ Crash
Spec == Init /\ [][Next]_vars

Complete == file \in {init, Integrated(init)}
NothingLost == Keeps(init, file)
AtMostOnce == Cardinality(Imports(file, Import811)) <= 1
InForce == (pc = "idle" /\ "run" \in {ops[i] : i \in DOMAIN ops}) => file = Integrated(init)
Linked == (pc = "idle" /\ "script" \in {ops[i] : i \in DOMAIN ops}) => (file = Integrated(init) /\ link = "right")
NeverUndone == [][file = Integrated(init) => file' = file]_vars
LinkStays == [][link = "right" => link' = "right"]_vars
Idempotent == Integrated(Integrated(file)) = Integrated(file)
RightPlace == (Imports(init, Import811) = {} /\ Imports(file, Import811) # {}) =>
                 LET i == First(Imports(file, Import811)) IN i > 1 /\ file[i - 1] = Import901

-------------------------------------------------------------------------------
Hist == {<<a>> : a \in {"run", "script", "full", "kill"}} \union ({"run", "script", "full", "kill"} \X {"run", "script"})
        \union ({"full", "kill"} \X {"full", "kill"} \X {"run", "script"}) \union {<<"run", "script", "run">>, <<"script", "script", "script">>}
Cases == [file : Files, real : BOOLEAN, eol : BOOLEAN, link : Links, hist : Hist, legacy : BOOLEAN]
GenInit == /\ file \in {f \in Files : \A i, j \in DOMAIN f : i < j /\ f[i] = "other" => f[j] # "other" \/ j - i <= 2}
           /\ init = file /\ tmp = <<>> /\ pc = "read"
           /\ link \in Links /\ ops \in Hist
           /\ \A real, eol, legacy \in BOOLEAN :
                (real => eol /\ file = <<Import901>>) =>
                PrintT("CASE " \o ToJson([file |-> file, real |-> real, eol |-> eol, link |-> link, hist |-> ops, legacy |-> legacy]))
GenNext == FALSE /\ UNCHANGED vars
===============================================================================
