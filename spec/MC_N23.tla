------------------------------- MODULE MC_N23 ---------------------------------
(* Correlation matrices: theorems, and the cases played *)
EXTENDS Tdl, Json
CONSTANT Quick
VARIABLE c
N == 1..(IF Quick THEN 4 ELSE 6)
Radii == {"0", "0.3", "0.77", "0.999"}
Turns == {30 * k : k \in 0..11}
Phis == {15 * k : k \in (-12)..12}
Init == \/ c \in [kind : {"exp"}, r : Radii, t : Turns, n : N]
        \/ c \in [kind : {"ring"}, phi : Phis, s : {"0", "1", "7.5", "15"}, d : {"0.25", "0.5", "1.3"}, n : N]
        \/ c \in [kind : {"angle"}, a : {7 * k : k \in (-200)..200}]
Next == FALSE /\ UNCHANGED c
A == LET e == CExpI(Rad(c.t)) IN <<FMul(c.r, e[1]), FMul(c.r, e[2])>>
R == IF c.kind = "exp" THEN Exponential(A, c.n) ELSE OneRing(c.phi, c.s, c.d, c.n)
Matrix == c.kind # "angle"
IsHermitian == Matrix => Hermitian(R, "1e-12")
HasUnitDiagonal == Matrix => UnitDiagonal(R, "1e-12")
IsPsd == Matrix => Psd(R, "1e-9")
IsToeplitz == Matrix => \A i, j \in 1..(c.n - 1) : FNearAll(R[i][j], R[i + 1][j + 1], "1e-12", 0)
(* elimination of an exponential matrix: all pivots but the first are 1 - |a|^2 *)
ExpPivots == c.kind = "exp" => \A i \in 2..c.n : FNear(Pivots(R)[i], FSub(1, FSqr(c.r)), "1e-9", 0)
(* correlations get smaller with the distance of antennas; none is lost at endfire *)
Decays == Matrix => \A j \in 1..(c.n - 1) : FLe(CAbs2(R[j + 1][1]), FAdd(CAbs2(R[j][1]), "1e-12"))
Endfire == (c.kind = "ring" /\ c.phi \in {-90, 90}) => \A i \in 1..c.n : FNear(CAbs2(R[i][1]), 1, "1e-9", 0)
(* wrapping keeps the direction and is idempotent; the conversions are inverse *)
Wrapped == c.kind = "angle" => /\ FLe(0, Wrap360(c.a)) /\ FLt(Wrap360(c.a), 360)
                               /\ FNearAll(CExpI(Rad(Wrap360(c.a))), CExpI(Rad(c.a)), "1e-9", 0)
                               /\ FNear(Wrap360(Wrap360(c.a)), Wrap360(c.a), "1e-12", 0)
Inverse == c.kind = "angle" => FNear(Deg(Rad(c.a)), c.a, "1e-9", 0)

-------------------------------------------------------------------------------
Cases == [kind : {"exp", "ring", "angle", "coin", "refused"}, rank : 0..3, n : {1, 2, 3, 5, 8}, prec : {"single", "double", "default"},
          special : {"none", "zero", "edge"}, defaults : BOOLEAN]
GenInit == c \in Cases /\ PrintT("CASE " \o ToJson(c))
===============================================================================
