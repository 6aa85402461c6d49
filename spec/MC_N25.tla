-------------------------------- MODULE MC_N25 --------------------------------
(***************************************************************************)
(* Figures over the life of a channel model: a figure shows the topology   *)
(* in force when it was made, and nothing changes it afterwards (machine); *)
(* a scene drawn with one scale reads back as it is, polarizations are     *)
(* drawn along the field of the element (theorems).  Gen: what to show.    *)
(***************************************************************************)
EXTENDS Views, Json
CONSTANTS Depth
VARIABLES topo, figs, made
vars == <<topo, figs, made>>

Kinds == {"deployment", "array"}
Init == topo = 0 /\ figs = <<>> /\ made = <<>>
Update == topo' = topo + 1 /\ UNCHANGED <<figs, made>>
Shown(k) == [kind |-> k, of |-> IF k = "deployment" THEN topo ELSE 0]
Show == \E k \in Kinds : (k = "deployment" => topo > 0) /\ figs' = Append(figs, Shown(k)) /\ made' = Append(made, topo) /\ UNCHANGED topo
Next == Update \/ Show
Spec == Init /\ [][Next]_vars
Small == topo + Len(figs) <= Depth
Current == \A i \in DOMAIN figs : figs[i].kind = "deployment" => figs[i].of = made[i]
Kept == [][\A i \in DOMAIN figs : i \in DOMAIN figs' /\ figs'[i] = figs[i]]_vars
ShowsChangeNothing == [][Len(figs') # Len(figs) => topo' = topo]_vars

-------------------------------------------------------------------------------
(* theorems; topo holds a scene *)
Xs == {"-300", "12.5", "120000"}
Hs == {"1.5", "600000"}
SceneInit == /\ topo \in [a : Xs, b : Xs, c : Hs, d : Xs, h : Hs, o : {<<"0", "0", "0">>, <<"0.3", "-1.2", "2">>, <<"-2", "1.5", "0.4">>}]
             /\ figs = <<>> /\ made = <<>>
Stop == FALSE /\ UNCHANGED vars
P1 == <<topo.a, topo.b, topo.c>>
P2 == <<topo.d, topo.a, topo.h>>
Sc == Scale(<<P1, P2>>)
ReadsBack == \A p \in {P1, P2} : FNearAll(Read(Drawn(p, Sc), <<Sc, Sc, Sc>>), p, "1e-9", "1e-12")
Readable == \A p \in {P1, P2} : \A k \in 1..3 : Sc = "m" => FLe(p[k], 10000)
Orthonormal == \A j, k \in 1..3 : FNear(Dot3(AxisOf(topo.o, j), AxisOf(topo.o, k)), IF j = k THEN 1 ELSE 0, "1e-12", 0)
RightHanded == LET x == AxisOf(topo.o, 1) y == AxisOf(topo.o, 2) z == AxisOf(topo.o, 3) IN
    FNearAll(<<FSub(FMul(x[2], y[3]), FMul(x[3], y[2])), FSub(FMul(x[3], y[1]), FMul(x[1], y[3])), FSub(FMul(x[1], y[2]), FMul(x[2], y[1]))>>, z, "1e-12", 0)
(* at broadside the electric field lies along the line drawn *)
Broadside(pt, i) == LET f == Field("omni", Slants(pt)[i], HalfPi, 0)  a == Rad(PolLine(Slants(pt)[i]))
                        e == <<FAdd(FMul(f[1], ETheta(HalfPi, 0)[2]), FMul(f[2], EPhi(HalfPi, 0)[2])),
                               FAdd(FMul(f[1], ETheta(HalfPi, 0)[3]), FMul(f[2], EPhi(HalfPi, 0)[3]))>>
                    IN FNear(FSub(FMul(e[1], FSin(a)), FMul(e[2], FCos(a))), 0, "1e-12", 0)
AlongField == \A pt \in {"V", "H", "VH", "cross"} : \A i \in DOMAIN Slants(pt) : Broadside(pt, i)

-------------------------------------------------------------------------------
Cases == [kind : {"deployment"}, scn : {"dur", "urb", "sur"}, b : 1..2, nb : 1..3, nu : {1, 2, 5}, far : BOOLEAN, high : BOOLEAN,
          prec : {"single", "double"}, times : 1..2]
    \cup [kind : {"element"}, pattern : Patterns, pt : {"V", "H", "cross"}, prec : {"single", "double"}, via : {"element", "array"}]
    \cup [kind : {"array"}, pr : 1..2, pc : 1..2, nr : 1..3, nc : 1..3, pt : {"V", "H", "VH", "cross"}, prec : {"single", "double"}]
    \cup [kind : {"panel"}, nr : 1..3, nc : 1..3, pol : {"single", "dual"}, prec : {"single", "double"}]
GenInit == topo \in Cases /\ PrintT("CASE " \o ToJson(topo)) /\ figs = <<>> /\ made = <<>>
===============================================================================
