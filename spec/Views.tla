-------------------------------- MODULE Views ---------------------------------
(***************************************************************************)
(* Figures: the deployment of a channel model, panels and arrays, cuts of  *)
(* radiation patterns.  A figure is judged by what a reader takes from it: *)
(* a drawn coordinate times the unit on its axis is a coordinate.          *)
(***************************************************************************)
EXTENDS Coefficients

(* what unit an axis label states, in metres *)
Metres(u) == CASE u = "m" -> 1 [] u = "km" -> 1000
Read(p, units) == [k \in 1..3 |-> FMul(p[k], Metres(units[k]))]

(* One scale for the whole scene; kilometres if some coordinate is large *)
Scale(ps) == IF \E i \in DOMAIN ps : \E k \in 1..3 : FLt(10000, ps[i][k]) THEN "km" ELSE "m"
Drawn(p, unit) == [k \in 1..3 |-> FDiv(p[k], Metres(unit))]

(* x, y, z axis of a node with orientation o *)
AxisOf(o, k) == ToGcs(o, CASE k = 1 -> <<1, 0, 0>> [] k = 2 -> <<0, 1, 0>> [] k = 3 -> <<0, 0, 1>>)

(* direction of a polarization in the plane of the array (y to the right, z up), degrees modulo 180 *)
PolLine(slant) == FMod(Deg(FAtan2(FNeg(FCos(slant)), FSin(slant))), 180)

(* which nodes are drawn in which group *)
Group(los, v) == {u \in DOMAIN los : los[u] = v}
===============================================================================
