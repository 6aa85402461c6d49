-------------------------------- MODULE MC_N12 --------------------------------
(* Sub-clusters: for every number of clusters, ranking of their powers and  *)
(* spacing of their delays, the paths are a partition of the rays (MC).     *)
EXTENDS Coefficients, Json, FiniteSets

CONSTANTS MaxN
VARIABLE c

Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
(* powers by rank; delays in units of the cluster delay spread, with gaps   *)
(* below, between and above the sub-cluster offsets                         *)
Init == \E n \in 2..MaxN : c \in [rank : Perms(n), gaps : [1..(n - 1) -> IF n <= 3 THEN {1, 2, 30} ELSE {1, 30}]]
Next == FALSE /\ UNCHANGED c

N == Len(c.rank)
RECURSIVE Delay(_)
Delay(i) == IF i = 1 THEN F(0) ELSE FAdd(Delay(i - 1), FMul(c.gaps[i - 1], "0.9"))
L == [P |-> [i \in 1..N |-> FDiv(1, c.rank[i])], T |-> [i \in 1..N |-> Delay(i)], cds |-> F(1),
      aoa |-> [i \in 1..N |-> [m \in 1..20 |-> 0]]]
ps == Paths(L)
PathCount == Len(ps) = N + 4
Ascending == \A i \in 1..(Len(ps) - 1) : FLe(ps[i].delay, ps[i + 1].delay)
FirstAtZero == FEq(ps[1].delay, 0)
RaysOf(i) == {<<ps[i].n, ps[i].rays[j]>> : j \in DOMAIN ps[i].rays}
Partition == /\ UNION {RaysOf(i) : i \in 1..Len(ps)} = (1..N) \X (1..20)
             /\ \A i, j \in 1..Len(ps) : i # j => RaysOf(i) \cap RaysOf(j) = {}
             /\ \A i \in 1..Len(ps) : Cardinality(RaysOf(i)) = Len(ps[i].rays)
PathsOf(n) == {i \in 1..Len(ps) : ps[i].n = n}
StrongSplit == \A n \in 1..N :
    IF c.rank[n] <= 2
    THEN /\ Cardinality(PathsOf(n)) = 3
         /\ {Len(ps[i].rays) : i \in PathsOf(n)} = {10, 6, 4}
         /\ \A i \in PathsOf(n) :
              FNear(FSub(ps[i].delay, L.T[n]),
                    CASE Len(ps[i].rays) = 10 -> 0 [] Len(ps[i].rays) = 6 -> "1.28" [] OTHER -> "2.56", "1e-9", 0)
    ELSE Cardinality(PathsOf(n)) = 1

-------------------------------------------------------------------------------
Cases == {x \in [n : 2..8, first : 1..8, second : 1..8, gap : {"tight", "mixed", "wide"}, masked : 0..4,
                 moving : {"tx", "rx"}, los : {"los", "nlos", "mixed"}] :
            /\ x.first <= x.n - x.masked /\ x.second <= x.n - x.masked /\ x.first # x.second}
GenInit == c \in Cases /\ PrintT("CASE " \o ToJson(c))
===============================================================================
