------------------------------ MODULE Randomness ------------------------------
(***************************************************************************)
(* Where random numbers come from.  Two sources are seeded separately: a   *)
(* generator object, whose state is shared by everything, and random       *)
(* operations, which take their numbers from a counter of the process or,  *)
(* inside a compiled function, from a counter of that function which       *)
(* starts over, from the seed, when the function is traced: two compiled   *)
(* functions, or one traced twice, take the same numbers.                  *)
(*                                                                         *)
(* Every realisation draws from both sources.  An epoch starts with        *)
(* seeding; afterwards models and functions are made anew.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Functions,   \* compiled functions
          Seeds, Depth, Epochs,
          Partial,     \* TRUE: epochs may seed one of the sources only
          Frozen       \* TRUE: a broken design which draws when a function is traced only

VARIABLES gen,      \* generator: <<seed, draws so far>>
          opc,      \* process counter: <<seed, draws so far>>
          fns,      \* traced functions: name -> [seed, n]
          seeded, hist, \* this epoch: what was seeded with what, operations since
          log,      \* realisations of all epochs
          epochs
vars == <<gen, opc, fns, seeded, hist, log, epochs>>

Init == /\ gen = <<0, 0>> /\ opc = <<0, 0>> /\ fns = <<>>
        /\ seeded = <<>> /\ hist = <<>> /\ log = {} /\ epochs = 0

Seed(s, what) ==
    /\ epochs < Epochs /\ epochs' = epochs + 1
    /\ gen' = IF what = "op" THEN gen ELSE <<s, 0>>
    /\ opc' = IF what = "gen" THEN opc ELSE <<s, 0>>
    /\ fns' = <<>> /\ hist' = <<>> /\ seeded' = <<s, what>> /\ UNCHANGED log

Record(op, g, o) ==
    /\ hist' = Append(hist, op)
    /\ log' = log \cup {[who |-> op, epoch |-> epochs, seeded |-> seeded, hist |-> hist', gen |-> g, op |-> o]}
    /\ UNCHANGED <<seeded, epochs>>

Eager ==
    /\ Record("eager", gen, <<"process", opc>>)
    /\ gen' = <<gen[1], gen[2] + 1>> /\ opc' = <<opc[1], opc[2] + 1>>
    /\ UNCHANGED fns

Execute(f) ==
    LET new == f \notin DOMAIN fns
        x == IF new THEN [seed |-> opc[1], n |-> 0, gen |-> gen] ELSE fns[f]
    IN /\ UNCHANGED opc
       /\ fns' = [k \in DOMAIN fns \cup {f} |-> IF k = f THEN [x EXCEPT !.n = @ + 1] ELSE fns[k]]
       /\ IF Frozen THEN Record(f, x.gen, <<"function", x.seed, 0>>) /\ UNCHANGED gen
                    ELSE Record(f, gen, <<"function", x.seed, x.n>>) /\ gen' = <<gen[1], gen[2] + 1>>

Next == \/ \E s \in Seeds, w \in (IF Partial THEN {"both", "gen", "op"} ELSE {"both"}) : Seed(s, w)
        \/ /\ epochs > 0 /\ Len(hist) < Depth
           /\ Eager \/ \E f \in Functions : Execute(f)
Spec == Init /\ [][Next]_vars

(* Every realisation has new numbers from both sources, two functions have from the generator only ... *)
Fresh == \A x, y \in log : (x.epoch = y.epoch /\ x # y) =>
            /\ x.gen # y.gen
            /\ (x.who = y.who \/ "eager" \in {x.who, y.who}) => x.op # y.op
(* (violated for two functions, which is a property of the framework below) *)
FreshFunctions == \A x, y \in log : (x.epoch = y.epoch /\ x # y) => x.op # y.op
(* ... determined by the seed and what happened since *)
Reproducible == \A x, y \in log : (x.seeded = y.seeded /\ x.seeded[2] = "both" /\ x.hist = y.hist) => x.gen = y.gen /\ x.op = y.op
SeedsMatter == \A x, y \in log : (x.seeded[2] = "both" /\ y.seeded[2] = "both" /\ x.seeded # y.seeded) => x.gen # y.gen /\ x.op # y.op
(* needs both sources: violated with Partial = TRUE, which MC_N22 shows *)
OneIsEnough == \A x, y \in log : (x.seeded = y.seeded /\ x.hist = y.hist) => x.gen = y.gen /\ x.op = y.op

(* The recorded realisations are held against the three rules Fresh,       *)
(* Reproducible and SeedsMatter.                                           *)
===============================================================================
