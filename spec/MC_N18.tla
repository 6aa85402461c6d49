-------------------------------- MODULE MC_N18 --------------------------------
(***************************************************************************)
(* Dropping UTs as a machine: choose the centre of the square on the       *)
(* circle, drop one UT after the other, relocate to a sector and a cell.   *)
(* Invariants: the UTs fit the square (and no smaller circle), relocation  *)
(* is a rigid motion undone by Back, and arrays look at the BS under the   *)
(* elevation.  Gen: which parameters are given, and how.                   *)
(***************************************************************************)
EXTENDS Topo, Json, TLC
CONSTANTS Quick
VARIABLES c, uts, moved

Els == IF Quick THEN {10, 45, 90} ELSE {10, 20, 35, 45, 60, 75, 89, 90}
Az == {15 * i : i \in 0..(IF Quick THEN 3 ELSE 6)}                  \* bearing of the centre
Off == {-2, 0, 2}
Isd == 1000
H == 600000
Centre == LET R == Radius(H, c.el) IN <<FMul(R, FCos(Rad(c.az))), FMul(R, FSin(Rad(c.az)))>>
At(o) == <<FAdd(Centre[1], FMul(o[1], FDiv(Isd, 4))), FAdd(Centre[2], FMul(o[2], FDiv(Isd, 4)))>>
Init == /\ c \in [el : Els, az : Az, sector : 0..2, cell : {<<0, 0>>, <<5000, -70000>>}]
        /\ uts = <<>> /\ moved = FALSE
Drop == /\ ~moved /\ Len(uts) < (IF Quick THEN 2 ELSE 3) /\ \E o \in Off \X Off : uts' = Append(uts, At(o)) /\ UNCHANGED <<c, moved>>
Move == /\ ~moved /\ uts # <<>> /\ uts' = [i \in DOMAIN uts |-> Relocate(uts[i], c.sector, c.cell)] /\ moved' = TRUE /\ UNCHANGED c
Next == Drop \/ Move
Orig == IF moved THEN [i \in DOMAIN uts |-> Back(uts[i], c.sector, c.cell)] ELSE uts
Square == uts # <<>> => FitsSquare(Orig, Isd, Radius(H, c.el), "1e-6")
OnGrid == uts # <<>> => \A i \in DOMAIN uts : \E o \in Off \X Off :
              FNear(Orig[i][1], At(o)[1], "1e-6", 0) /\ FNear(Orig[i][2], At(o)[2], "1e-6", 0)
(* a square shifted by more than the side does not fit *)
Sharp == LET R == Radius(H, c.el)
             S == <<At(<<-2, -2>>), <<FAdd(At(<<2, 2>>)[1], 1), At(<<2, 2>>)[2]>> >>
         IN ~FitsSquare(S, Isd, R, "1e-6")
(* seen from the centre the BS has the elevation; the array of a UT there looks exactly at the BS *)
Looks == c.el # 90 =>
         LET p == Centre
             d == FSqrt(FAdd(FSqr(p[1]), FAdd(FSqr(p[2]), FSqr(H))))
             B == Boresight(UtOrientation(p, c.el))
         IN /\ FNearAll(B, <<FNeg(FDiv(p[1], d)), FNeg(FDiv(p[2], d)), FDiv(H, d)>>, "1e-9", 0)
            /\ FNearAll(B, Facing(p, c.el), "1e-9", 0)
BsLooksDown == FNearAll(Boresight(BsOrientation), <<0, 0, -1>>, "1e-12", 0)
Rigid == \A s \in 0..2 : FNearAll(Turn(Turn(Turn(<<"3", "4">>, s), s), s), <<"3", "4">>, "1e-9", 0)
DefaultsTotal == \A s \in ScnNames, p \in ParNames : FLe(0, Default(s, p))

-------------------------------------------------------------------------------
Gives == {"none", "one", "all", "heights", "speeds", "isd"}
Cases == {x \in [scn : ScnNames, give : Gives, how : {"python", "int", "tensor"}, prec : {"single", "double", "none"},
                 fn : {"gen", "gen", "uts_sector", "uts_cell", "params", "drop", "relocate"}, one : ParNames, sz : {"one", "small", "large"}] :
             /\ (x.give # "one" => x.one = "isd")
             /\ (x.fn \in {"drop", "relocate"} => x.give = "all")
             /\ (x.fn = "relocate" => x.how = "tensor") /\ (x.fn \in {"uts_sector", "uts_cell"} => x.give \in {"all", "heights"})}
GenInit == c \in Cases /\ PrintT("CASE " \o ToJson(c)) /\ uts = <<>> /\ moved = TRUE
===============================================================================
