-------------------------------- MODULE MC_N14 --------------------------------
(* Doppler: theorems of the rates (MC), configurations (Gen) *)
EXTENDS Coefficients, Json

CONSTANTS Quick
VARIABLE c

Els == IF Quick THEN {10, 30, 50, 70, 89, 90} ELSE 10..90
Hs == {8000, 160000, 599999, 600000, 601000, 1200000, 8000000, 35786000}
Init == c \in [h : Hs, el : Els, lam : {"0.15", "0.01"}, z : {"0.2", "1.5", "3"}, a : {"-2", "0", "1"}]
Next == FALSE /\ UNCHANGED c
w == SatRate(c.h, c.el, c.lam)
None == c.h < 600000 <=> FEq(w, 0)
Overhead == c.el = 90 => FNear(w, 0, "1e-6", 0)
Falls == c.h >= 600000 => /\ FLe(SatRate(c.h + 1000, c.el, c.lam), w)
                          /\ c.el < 90 => FLt(SatRate(c.h, c.el + 1, c.lam), w)
(* never more than the shift of the orbital speed itself *)
Bounded == FLe(w, FDiv(FMul(TwoPi, 7600), c.lam))
Wavelength == FNear(FMul(SatRate(c.h, c.el, FMul(2, c.lam)), 2), w, 0, "1e-12")
(* moving along the ray direction gives v/lambda turns per second, against it the opposite *)
Lk(mv) == [moving |-> mv, vel |-> [i \in 1..3 |-> FMul(7, Sph(c.z, c.a)[i])], lam |-> c.lam]
Along == /\ FNear(MotionRate(Lk("rx"), c.a, c.z, "0.5", "0.7"), FDiv(FMul(TwoPi, 7), c.lam), 0, "1e-12")
         /\ FNear(MotionRate(Lk("tx"), "0.5", "0.7", c.a, c.z), FDiv(FMul(TwoPi, 7), c.lam), 0, "1e-12")
         /\ FNear(MotionRate(Lk("rx"), FAdd(c.a, PI), FSub(PI, c.z), "0.5", "0.7"), FDiv(FMul(TwoPi, -7), c.lam), 0, "1e-12")

-------------------------------------------------------------------------------
Cases == {x \in [heights : {"low", "sat", "edge", "mixed", "equal"}, moving : {"tx", "rx"}, doppler : {TRUE, FALSE},
                 speed : {"static", "slow", "fast"}, nbs : {1, 2}, b : {1, 2, 3}, el : {"10", "45", "63.5", "89", "90"},
                 fs : {"low", "high"}, nt : {1, 3, 4}, f : {"2e9", "20e9", "40e9"}] : TRUE}
GenInit == c \in Cases /\ PrintT("CASE " \o ToJson(c))
===============================================================================
