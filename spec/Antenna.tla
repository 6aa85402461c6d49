------------------------------- MODULE Antenna --------------------------------
(***************************************************************************)
(* Antenna elements and panel arrays (TR 38.901 7.3, TR 38.811 6.4.1).     *)
(*                                                                         *)
(* An array is a record [pr, pc, nr, nc, pol, ptype, pattern, ev, eh, pv,  *)
(* ph, f]: panel rows and columns, element rows and columns per panel,     *)
(* polarization, its type, radiation pattern, vertical and horizontal      *)
(* element and panel spacings in wavelengths ("null" where not given),     *)
(* carrier in Hz.                                                          *)
(***************************************************************************)
EXTENDS Tables, TLC

Patterns == {"omni", "38.901", "aperture", "dlp"}
PolTypes == {<<"single", "V">>, <<"single", "H">>, <<"dual", "VH">>, <<"dual", "cross">>}

HalfPi == "1.5707963267948966"
QuarterPi == "0.7853981633974483"

(* Slant angle(s) of the polarizations *)
Slants(ptype) ==
    CASE ptype = "V" -> <<0>>
      [] ptype = "H" -> <<HalfPi>>
      [] ptype = "VH" -> <<0, HalfPi>>
      [] ptype = "cross" -> <<FNeg(QuarterPi), QuarterPi>>

(* A sector pattern: vertical and horizontal cuts limited to m dB, beam     *)
(* width w degrees, in dB                                                   *)
Cuts(t, p, w, m) ==
    LET av == FMin(FMul(12, FSqr(FDiv(FSub(Deg(t), 90), w))), m)
        ah == FMin(FMul(12, FSqr(FDiv(Deg(p), w))), m)
    IN FNeg(FMin(FAdd(av, ah), m))

(* Power gain of an element towards zenith t, azimuth p [rad], in its LCS  *)
Power(pattern, t, p) ==
    CASE pattern = "omni" -> F(1)
      [] pattern = "38.901" -> FPow(10, FDiv(FAdd(Cuts(t, p, 65, 30), 8), 10))
      [] pattern = "dlp" -> FPow(10, FDiv(Cuts(t, p, 90, 25), 10))
      [] pattern = "aperture" ->      \* circular aperture of radius 10 wavelengths
           LET c == FMul(FSin(t), FCos(p))      \* cosine of the angle off boresight
               s == FSqrt(FMax(0, FSub(1, FSqr(c))))
               x == FMul(FMul(20, PI), s)
           IN IF FLt(c, 0) THEN F(0)
              ELSE IF FLt(x, "1e-9") THEN F(1)
              ELSE FMul(4, FSqr(FDiv(FBesselJ1(x), x)))

(* Field components (theta, phi) in the LCS *)
Field(pattern, slant, t, p) ==
    LET a == FSqrt(Power(pattern, t, p)) IN <<FMul(a, FCos(slant)), FMul(a, FSin(slant))>>

-------------------------------------------------------------------------------
NPol(arr) == IF arr.pol = "single" THEN 1 ELSE 2
NPerPol(arr) == arr.nr * arr.nc           \* elements of a panel in one polarization
NAnt(arr) == arr.pr * arr.pc * arr.nr * arr.nc * NPol(arr)
Dflt(x, d) == IF FIsNull(x) THEN d ELSE x
Ev(arr) == Dflt(arr.ev, "0.5")
Eh(arr) == Dflt(arr.eh, "0.5")
Pv(arr) == Dflt(arr.pv, FAdd(FMul(arr.nr - 1, Ev(arr)), "0.5"))
Ph(arr) == Dflt(arr.ph, FAdd(FMul(arr.nc - 1, Eh(arr)), "0.5"))

(* Element n = 1..NAnt: panels columnwise from the top left, within a panel *)
(* one polarization after the other, within these columnwise from top left  *)
PanelOf(arr, n) == (n - 1) \div (NPerPol(arr) * NPol(arr))
PolOf(arr, n) == (((n - 1) \div NPerPol(arr)) % NPol(arr)) + 1
PosOf(arr, n) ==
    LET q == (n - 1) % NPerPol(arr) IN
    [row |-> q % arr.nr, col |-> q \div arr.nr,
     prow |-> PanelOf(arr, n) % arr.pr, pcol |-> PanelOf(arr, n) \div arr.pr]
Lambda(arr) == FDiv(C0, arr.f)
Half(x) == FDiv(x, 2)
(* Centred coordinates: y to the right, z upwards *)
ElemPos(arr, n) ==
    LET k == PosOf(arr, n)
        y == FAdd(FMul(FSub(k.pcol, Half(arr.pc - 1)), Ph(arr)),
                  FMul(FSub(k.col, Half(arr.nc - 1)), Eh(arr)))
        z == FAdd(FMul(FSub(Half(arr.pr - 1), k.prow), Pv(arr)),
                  FMul(FSub(Half(arr.nr - 1), k.row), Ev(arr)))
    IN <<F(0), FMul(y, Lambda(arr)), FMul(z, Lambda(arr))>>
===============================================================================
