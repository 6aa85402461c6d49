-------------------------------- MODULE MC_N11 --------------------------------
(* Angles: theorems of offsets, wrapping and angle constants on a grid (MC), configurations (Gen) *)
EXTENDS Rays, Json, FiniteSets
CONSTANTS Quick
VARIABLE c

Step == IF Quick THEN 15 ELSE 3
Init == \/ c \in [kind : Kinds, a : {Step * i : i \in ((-720) \div Step)..(720 \div Step)}, s : {"0", "0.5", "7", "16.68"}]
        \/ c \in [db : -9..40, scn : ScnNames]
        \/ c \in [perm : {p \in [1..4 -> 1..4] : Cardinality({p[i] : i \in 1..4}) = 4}, vals : [1..4 -> {0, 1, 2}]]
Next == FALSE /\ UNCHANGED c

Is(f) == f \in DOMAIN c
(* table 7.5-3: symmetric offsets of unit rms *)
UnitOffsets == /\ FNear(FSum([m \in 1..NumRays |-> Offset(m)]), 0, "1e-12", 0)
               /\ FNear(FDiv(FSum([m \in 1..NumRays |-> FSqr(Offset(m))]), NumRays), 1, "1e-3", 0)
(* a representative is in range, represents the same direction, and is fixed *)
Representative == Is("kind") =>
    LET r == Represent(c.kind, c.a)
    IN /\ InRange(c.kind, r) /\ FNear(Represent(c.kind, r), r, "1e-9", 0)
       /\ FNear(FCos(Rad(r)), FCos(Rad(c.a)), "1e-9", 0)
       /\ c.kind \in {"aoa", "aod"} => FNear(FSin(Rad(r)), FSin(Rad(c.a)), "1e-9", 0)
(* the rays of any cluster have a centre, in any order, and it represents it *)
Found == Is("kind") =>
    LET a == TLCEval([m \in 1..NumRays |-> Represent(c.kind, FAdd(c.a, FMul(c.s, Offset(((m * 7) % NumRays) + 1))))])
    IN /\ HasCentre(c.kind, c.s, a, "1e-7")
       /\ RaysAround(c.kind, c.a, c.s, a, "1e-7")
       /\ c.s # "0" => ~RaysAround(c.kind, FAdd(c.a, 7), c.s, a, "1e-7")
       /\ c.s # "0" => ~HasCentre(c.kind, FMul("1.05", c.s), a, "1e-7")
Cfg == [scn |-> c.scn, dir |-> "uplink", f |-> 2, el |-> 50]
Constants == Is("db") => LET k == FPow(10, FDiv(c.db, 10))
    IN FLt(0, CPhi(Cfg, TRUE, k)) /\ FLt(0, CTheta(Cfg, TRUE, k)) /\ FLt(0, CPhi(Cfg, FALSE, k))
(* the strongest cluster has distance zero; weaker ones are further away *)
Distances == Is("db") => LET k == FPow(10, FDiv(c.db, 10)) P == <<"0.5", "0.3", "0.2">>
    IN \A los \in BOOLEAN :
         /\ FEq(AzDistance(Cfg, los, k, 9, P, 1), 0) /\ FEq(ZenDistance(Cfg, los, k, 9, P, 1), 0)
         /\ FLt(AzDistance(Cfg, los, k, 9, P, 2), AzDistance(Cfg, los, k, 9, P, 3))
         /\ FLt(ZenDistance(Cfg, los, k, 9, P, 2), ZenDistance(Cfg, los, k, 9, P, 3))
(* sorting decides whether one sequence permutes another *)
Permutes == Is("perm") => FNearAll(Sorted([i \in 1..4 |-> c.vals[c.perm[i]]]), Sorted(c.vals), 0, 0)

-------------------------------------------------------------------------------
Cases == [scn : ScnNames, dir : Directions, f : {"2.2", "28"}, el : {"10", "21", "30", "39", "48", "60", "71", "82", "90"},
          b : {1, 2}, nb : {1, 2}, nu : {1, 3}, los : {"drawn", "true", "false"},
          heights : {"space", "low", "edge", "mixed"}, how : {"stages", "rays"}, near : BOOLEAN]
GenInit == c \in Cases /\ PrintT("CASE " \o ToJson(c))
===============================================================================
