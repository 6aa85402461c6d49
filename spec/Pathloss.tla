------------------------------- MODULE Pathloss -------------------------------
(***************************************************************************)
(* Pathloss of a link, TR 38.811 section 6.6.  All losses in dB.           *)
(* An environment is a record with fields pressure [hPa], temperature [K], *)
(* vapor [g/m^3], humidity [%], diameter [m], efficiency.                  *)
(***************************************************************************)
EXTENDS Geometry

FreeSpace(f, d) == FAdd("32.45", FAdd(FMul(20, FLog10(f)), FMul(20, FLog10(d))))

Clutter(cfg, los) == IF los THEN 0 ELSE Par(cfg, FALSE, "CL")
ShadowStd(cfg, los) == Par(cfg, los, "sigmaSF")

-------------------------------------------------------------------------------
(* Attenuation by atmospheric gases, ITU-R P.676 Annex 2 *)

Sum4(a, b, c, d) == FSum(<<a, b, c, d>>)
Phi(rp, rt, a, b, c, d) ==
    FMul(FMul(FPow(rp, a), FPow(rt, b)),
         FExp(FAdd(FMul(c, FSub(1, rp)), FMul(d, FSub(1, rt)))))
GFun(f, fi) == FAdd(1, FSqr(FDiv(FSub(f, fi), FAdd(f, fi))))

(* specific attenuation of dry air for f <= 54 GHz [dB/km] *)
DryAir(f, rp, rt) ==
    LET x1 == Phi(rp, rt, "0.0717", "-1.8132", "0.0156", "-1.6515")
        x2 == Phi(rp, rt, "0.5146", "-4.6368", "-0.1921", "-5.7416")
        x3 == Phi(rp, rt, "0.3414", "-6.5851", "0.2130", "-8.5854")
        a == FDiv(FMul("7.2", FPow(rt, "2.8")),
                  FAdd(FSqr(f), FMul("0.34", FMul(FSqr(rp), FPow(rt, "1.6")))))
        b == FDiv(FMul("0.62", x3),
                  FAdd(FPow(FSub(54, f), FMul("1.16", x1)), FMul("0.83", x2)))
    IN FMul(FAdd(a, b), FMul(FMul(FSqr(f), FSqr(rp)), "1e-3"))

(* equivalent height of dry air [km] *)
DryHeight(f, rp) ==
    LET t1 == FMul(FDiv("4.64", FAdd(1, FMul("0.066", FPow(rp, "-2.3")))),
                   FExp(FNeg(FSqr(FDiv(FSub(f, "59.7"),
                        FAdd("2.87", FMul("12.4", FExp(FMul("-7.9", rp)))))))))
        t2 == FDiv(FMul("0.14", FExp(FMul("2.12", rp))),
                   FAdd(FSqr(FSub(f, "118.75")), FMul("0.031", FExp(FMul("2.2", rp)))))
        t3 == FMul(FMul(FDiv("0.0114", FAdd(1, FMul("0.14", FPow(rp, "-2.6")))), f),
                   FDiv(FSum(<<"-0.0247", FMul("0.0001", f), FMul("1.61e-6", FSqr(f))>>),
                        Sum4(1, FMul("-0.0169", f), FMul("4.1e-5", FSqr(f)), FMul("3.2e-7", FPow(f, 3)))))
    IN FMul(FDiv("6.1", FAdd(1, FMul("0.17", FPow(rp, "-1.1")))), Sum4(1, t1, t2, t3))

(* specific attenuation of water vapour [dB/km] *)
Vapour(f, rp, rt, rho) ==
    LET n1 == FAdd(FMul(FMul("0.955", rp), FPow(rt, "0.68")), FMul("0.006", rho))
        n2 == FAdd(FMul(FMul("0.735", rp), FPow(rt, "0.5")),
                   FMul(FMul("0.0353", FPow(rt, 4)), rho))
        L(s, n, c, fi, w) ==
            FDiv(FMul(FMul(s, n), FExp(FMul(c, FSub(1, rt)))),
                 FAdd(FSqr(FSub(f, fi)), FMul(w, FSqr(n))))
    IN FMul(FSum(<<FMul(L("3.98", n1, "2.23", "22.235", "9.42"), GFun(f, 22)),
                   L("11.96", n1, "0.7", "183.31", "11.14"),
                   L("0.081", n1, "6.44", "321.226", "6.29"),
                   L("3.66", n1, "1.6", "325.153", "9.22"),
                   L("25.37", n1, "1.09", 380, 0),
                   L("17.4", n1, "1.46", 448, 0),
                   FMul(L("844.6", n1, "0.17", 557, 0), GFun(f, 557)),
                   FMul(L(290, n1, "0.41", 752, 0), GFun(f, 752)),
                   FMul(L(83328, n2, "0.99", 1780, 0), GFun(f, 1780))>>),
            FMul(FMul(FSqr(f), FPow(rt, "2.5")), FMul(rho, "1e-4")))

(* equivalent height of water vapour [km] *)
VapourHeight(f, rp) ==
    LET s == FDiv("1.013", FAdd(1, FExp(FMul("-8.1", FSub(rp, "0.57")))))
        L(a, fi, w) == FDiv(FMul(a, s), FAdd(FSqr(FSub(f, fi)), FMul(w, s)))
    IN FMul("1.66", Sum4(1, L("1.39", "22.235", "2.56"), L("3.37", "183.31", "4.69"),
                         L("1.5", "325.1", "2.89")))

GasLoss(f, el, env) ==
    LET rp == FDiv(env.pressure, 1013)
        rt == FDiv(288, env.temperature)
    IN FAbs(FDiv(FAdd(FMul(DryAir(f, rp, rt), DryHeight(f, rp)),
                      FMul(Vapour(f, rp, rt, env.vapor), VapourHeight(f, rp))),
                 FSin(Rad(el))))

-------------------------------------------------------------------------------
(* Scintillation, TR 38.811 6.6.6; tropospheric part ITU-R P.618 *)

Ionospheric(f) == FDiv(FMul("1.1", FPow(FDiv(f, 4), "-1.5")), FSqrt(2))

TropTerms(f, el, env) ==
    LET tc == FSub(env.temperature, 273)
        es == FMul("6.1121", FExp(FDiv(FMul("17.502", tc), FAdd(tc, "240.97"))))
        nwet == FDiv(FMul(3732, FMul(env.humidity, es)), FSqr(env.temperature))
        ref == FAdd("3.6e-3", FMul("1e-4", nwet))
        s == FSin(Rad(el))
        len == FDiv(2000, FAdd(FSqrt(FAdd(FSqr(s), "2.35e-4")), s))
        deff2 == FMul(env.efficiency, FSqr(env.diameter))
        x == FDiv(FMul("1.22", FMul(deff2, f)), len)
        \* time percentage 0.01: log10 p = -2
        a == Sum4(FMul("-0.061", -8), FMul("0.072", 4), FMul("-1.71", -2), 3)
    IN [one |-> FMul(FMul("3.86", FPow(FAdd(FSqr(x), 1), FDiv(11, 12))), FSin(FMul(FDiv(11, 6), FAtan(FDiv(1, x))))),
        two |-> FMul("7.08", FPow(x, FDiv(5, 6))),
        scale |-> FMul(a, FDiv(FMul(ref, FPow(f, FDiv(7, 12))), FPow(s, "1.2")))]
Tropospheric(f, el, env) == LET t == TropTerms(f, el, env) IN FAbs(FMul(t.scale, FSqrt(FMax(FSub(t.one, t.two), 0))))

ScintLoss(f, el, env) == IF FLe(6, f) THEN Tropospheric(f, el, env) ELSE Ionospheric(f)
(* v is the scintillation loss: the antenna averaging factor of large antennas is the root of a difference of large
   terms, which are as accurate as eps *)
ScintOk(v, f, el, env, rel, eps) ==
    \/ FNear(v, ScintLoss(f, el, env), "1e-6", rel)
    \/ /\ FLe(6, f) /\ FLe(0, v)
       /\ LET t == TropTerms(f, el, env) IN
          FLe(FAbs(FSub(FSqr(v), FSqr(Tropospheric(f, el, env)))), FMul(FMul(eps, FSqr(t.scale)), FAdd(FAbs(t.one), FAbs(t.two))))
EntryLoss == 0

(* the random part (shadowing) excluded *)
DetermBasic(cfg, los, d) == FAdd(FreeSpace(cfg.f, d), Clutter(cfg, los))
===============================================================================
