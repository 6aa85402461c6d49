-------------------------------- MODULE MC_N17 --------------------------------
(***************************************************************************)
(* Arrays: the element order as a machine that places one element after    *)
(* the other (rows of a panel, columns, polarizations, rows of panels,     *)
(* columns of panels); its positions must be the ones Antenna gives for    *)
(* the element number, and the finished array has the array theorems.      *)
(* Patterns: theorems on a grid of directions.  Gen: configurations.       *)
(***************************************************************************)
EXTENDS Antenna, Json, FiniteSets
CONSTANTS Quick
VARIABLES c, pos, placed

N == 1..(IF Quick THEN 2 ELSE 3)
Arr == [pr : N, pc : N, nr : N, nc : N, pol : {"single", "dual"}, ptype : {"V"}, pattern : {"omni"},
        ev : {"null", "0.7"}, eh : {"null", "0.6"}, pv : {"null", "4"}, ph : {"null"}, f : {2000000000}]
InitArr == c \in Arr /\ pos = <<0, 0, 0, 0, 0>> /\ placed = <<>>      \* panel col, panel row, pol, col, row
Dims == <<c.pc, c.pr, NPol(c), c.nc, c.nr>>
RECURSIVE Inc(_, _)
Inc(p, i) == IF i = 0 THEN p
             ELSE IF p[i] + 1 < Dims[i] THEN [p EXCEPT ![i] = @ + 1] ELSE Inc([p EXCEPT ![i] = 0], i - 1)
Full == Len(placed) = NAnt(c)
Place == /\ ~Full
         /\ placed' = Append(placed, [y |-> FAdd(FMul(FSub(pos[1], Half(c.pc - 1)), Ph(c)), FMul(FSub(pos[4], Half(c.nc - 1)), Eh(c))),
                                      z |-> FAdd(FMul(FSub(Half(c.pr - 1), pos[2]), Pv(c)), FMul(FSub(Half(c.nr - 1), pos[5]), Ev(c))),
                                      pol |-> pos[3] + 1])
         /\ pos' = Inc(pos, 5) /\ UNCHANGED c
Next == Place
lam == Lambda(c)
AsSpecified == Len(placed) > 0 => LET n == Len(placed) IN
    /\ FNear(FMul(placed[n].y, lam), ElemPos(c, n)[2], "1e-12", 0)
    /\ FNear(FMul(placed[n].z, lam), ElemPos(c, n)[3], "1e-12", 0)
    /\ placed[n].pol = PolOf(c, n)
Of(q) == {n \in 1..Len(placed) : placed[n].pol = q}
Centred == Full => /\ FNear(FSum([n \in 1..Len(placed) |-> placed[n].y]), 0, "1e-9", 0)
                   /\ FNear(FSum([n \in 1..Len(placed) |-> placed[n].z]), 0, "1e-9", 0)
Balanced == Full => \A q \in 1..NPol(c) : Cardinality(Of(q)) = c.pr * c.pc * c.nr * c.nc
Distinct == Full => \A q \in 1..NPol(c) : \A m, n \in Of(q) :
                m # n => ~(FNear(placed[m].y, placed[n].y, "1e-6", 0) /\ FNear(placed[m].z, placed[n].z, "1e-6", 0))
Wraps == Full => pos = <<0, 0, 0, 0, 0>>

(* patterns *)
G == IF Quick THEN 10 ELSE 3
InitPat == /\ c \in [p : Patterns, t : {G * i : i \in 0..(180 \div G)}, a : {G * i : i \in ((-180) \div G)..(180 \div G)}]
           /\ pos = 0 /\ placed = <<>>
P(t, a) == Power(c.p, Rad(t), Rad(a))
Nonnegative == FLe(0, P(c.t, c.a)) /\ FLe(P(c.t, c.a), FMul("1.0000001", P(90, 0)))
Rim == c.p = "aperture" /\ (c.t \in {0, 180} \/ c.a \in {-90, 90})        \* jump between the half spaces
Mirror == Rim \/ FNear(P(c.t, c.a), P(c.t, -c.a), "1e-9", "1e-9")
Flip == Rim \/ FNear(P(c.t, c.a), P(180 - c.t, c.a), "1e-9", "1e-9")
FrontToBack == c.p = "aperture" /\ (c.a > 90 \/ c.a < -90) /\ c.t \notin {0, 180} => FNear(P(c.t, c.a), 0, "1e-12", 0)
SplitKeepsPower == \A s \in {"0", HalfPi, QuarterPi, "-0.7853981633974483"} :
    LET f == Field(c.p, s, Rad(c.t), Rad(c.a)) IN FNear(FAdd(FSqr(f[1]), FSqr(f[2])), P(c.t, c.a), "1e-12", "1e-9")
NextPat == FALSE /\ UNCHANGED <<c, pos, placed>>

-------------------------------------------------------------------------------
Cases == {x \in [pr : 1..3, pc : 1..3, nr : 1..4, nc : 1..4, pt : {"V", "H", "VH", "cross"}, pattern : Patterns,
                 spacing : {"default", "element", "panel", "both"}, cls : {"panel", "antenna", "array"}, prec : {"single", "double"}] :
             /\ x.cls = "antenna" => x.pr * x.pc * x.nr * x.nc = 1 /\ x.spacing = "default"
             /\ x.cls = "array" => x.pr * x.pc = 1 /\ x.spacing \in {"default", "element"}}
GenInit == c \in Cases /\ PrintT("CASE " \o ToJson(c)) /\ pos = 0 /\ placed = <<>>
===============================================================================
