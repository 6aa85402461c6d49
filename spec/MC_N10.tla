-------------------------------- MODULE MC_N10 --------------------------------
(***************************************************************************)
(* Cluster delays and powers: a machine over small integer delays and      *)
(* powers walks through the steps (draw, mask, shift, sort, correct), and  *)
(* every result must be in the standard's normal form; theorems of the     *)
(* K-factor correction on a grid.  Gen: configurations.                    *)
(***************************************************************************)
EXTENDS Rays, Json
CONSTANTS Quick
VARIABLE c

Far == 1000                      \* delay of unused clusters
Lens == 1..4
Draws == IF Quick THEN 0..3 ELSE 0..4
Init == \/ \E n \in Lens : c \in [step : {"draw"}, n : {n}, used : 1..n, d : [1..n -> Draws], p : [1..n -> 1..2]]
        \/ c \in [step : {"k"}, db : -60..60]

Masked == c.step = "draw" /\ c' = [c EXCEPT !.step = "masked", !.d = [i \in 1..c.n |-> IF i > c.used THEN Far ELSE @[i]],
                                            !.p = [i \in 1..c.n |-> IF i > c.used THEN 0 ELSE @[i]]]
MinOf(d) == CHOOSE x \in {d[i] : i \in DOMAIN d} : \A i \in DOMAIN d : x <= d[i]
SortInts(d) == LET o == FArgSort(d) IN [i \in 1..Len(d) |-> d[o[i]]]
Shifted == c.step = "masked" /\ c' = [c EXCEPT !.step = "done", !.d = SortInts([i \in 1..c.n |-> c.d[i] - MinOf(c.d)])]
Next == Masked \/ Shifted

Done == c.step = "done"
Ascending == Done => \A i \in 1..(c.n - 1) : c.d[i] <= c.d[i + 1]
StartsAtZero == Done => c.d[1] = 0 /\ \A i \in 1..c.n : c.d[i] >= 0
UsedFirst == Done => \A i \in 1..c.n : (c.p[i] > 0 <=> i <= c.used) /\ (c.d[i] < Far \div 2 <=> i <= c.used)
(* normalised powers and powers for the angles: totals *)
Norm == [i \in 1..c.n |-> FDiv(c.p[i], FSum(c.p))]
Totals == Done => /\ FNear(FSum(Norm), 1, "1e-12", 0)
                  /\ \A k \in {"0.1", "1", "12"} : /\ FNear(FSum(AnglePowers(TRUE, k, Norm)), 1, "1e-12", 0)
                                                  /\ FLe(FDiv(k, FAdd(k, 1)), AnglePowers(TRUE, k, Norm)[1])
(* the correction keeps the order of the delays: it is positive *)
Positive == c.step = "k" => FLt("0.05", DelayScale(FPow(10, FDiv(c.db, 10))))

-------------------------------------------------------------------------------
Cases == [scn : ScnNames, dir : Directions, f : {"2.2", "28"}, el : {"10", "21", "30", "39", "48", "60", "71", "82", "90"},
          b : {1, 3}, nb : {1, 2}, nu : {2, 3}, los : {"drawn", "true", "false"}, how : {"stages", "rays", "model"}]
GenNext == FALSE /\ UNCHANGED c
GenInit == c \in Cases /\ PrintT("CASE " \o ToJson(c))
===============================================================================
