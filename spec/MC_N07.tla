-------------------------------- MODULE MC_N07 --------------------------------
(* Pathloss: theorems of the loss model on a grid (MC), test cases (Gen) *)
EXTENDS Pathloss, TLC, Json

CONSTANTS Quick
VARIABLE c

DefaultEnv == [pressure |-> 1020, temperature |-> 273, vapor |-> "7.5", humidity |-> 50,
               diameter |-> "3.6", efficiency |-> "0.5"]
Freqs == {"1.9", "2", "2.2", "3", "3.5", "4", "19", "19.7", "20", "22.2", "25", "28", "30", "35", "40"}
Els == IF Quick THEN {10, 11, 20, 33, 45, 60, 75, 89} ELSE 10..89
Init == c \in [f : Freqs, el : Els, p : {900, 1013, 1020}, t : {263, 273, 288, 303}, v : {1, 8, 20},
               h : {10, 50, 90}, d : {"0.3", "3.6", "30"}]
Next == FALSE /\ UNCHANGED c

env == [DefaultEnv EXCEPT !.pressure = c.p, !.temperature = c.t, !.vapor = c.v, !.humidity = c.h, !.diameter = c.d]
gas(el) == GasLoss(c.f, el, env)
scint(el) == ScintLoss(c.f, el, env)

(* losses are finite and non-negative and do not grow with the elevation *)
Sane == \A x \in {gas(c.el), scint(c.el)} : FIsFinite(x) /\ FLe(0, x) /\ FLt(x, 60)
Decreasing == FLt(gas(c.el + 1), gas(c.el)) /\ FLe(scint(c.el + 1), scint(c.el))
GasCosecant == FNear(FMul(gas(c.el), FSin(Rad(c.el))), gas(90), 0, "1e-9")
Wetter == FLt(gas(c.el), GasLoss(c.f, c.el, [env EXCEPT !.vapor = c.v + 5]))
IonOnlyF == ~FLe(6, c.f) => FNear(scint(c.el), FDiv("8.8", FMul(FSqrt(2), FPow(c.f, "1.5"))), 0, "1e-9")
Inverse == \A h \in {20000, 600000, 35786000} :
             LET d == SlantRange(h, c.el)
             IN FNear(FSub(FreeSpace(c.f, FMul(2, d)), FreeSpace(c.f, d)), FMul(20, FLog10(2)), "1e-9", 0)
(* calibration of TR 38.821 table 6.1.3.3-1: GEO 12.5 degrees, LEO-600 30 degrees, 20 GHz / 2 GHz *)
Calibration ==
    /\ FNear(FreeSpace(20, SlantRange(35786000, "12.5")), "210.6", "0.06", 0)
    /\ FNear(FreeSpace(20, SlantRange(600000, 30)), "179.1", "0.06", 0)
    /\ FNear(FreeSpace(2, SlantRange(600000, 30)), "159.1", "0.06", 0)
    /\ FNear(GasLoss(20, "12.5", DefaultEnv), "1.2", "0.1", 0)
    /\ FNear(ScintLoss(20, "12.5", DefaultEnv), "1.1", "0.1", 0)
    /\ FNear(ScintLoss(2, "12.5", DefaultEnv), "2.2", "0.05", 0)
Theorems == Sane /\ Decreasing /\ GasCosecant /\ Wetter /\ IonOnlyF /\ Inverse /\ Calibration

-------------------------------------------------------------------------------
Cases == [scn : ScnNames, dir : Directions, f : Freqs, el : {"10", "12.5", "24.9", "37.3", "52", "63", "78", "86", "90"},
          los : {"sampled", "LoS", "NLoS"}, env : {"default", "random", "extreme"}, sf : BOOLEAN, prec : {"single", "double"}]
GenInit == c \in Cases /\ PrintT("CASE " \o ToJson(c))
===============================================================================
