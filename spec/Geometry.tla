------------------------------- MODULE Geometry -------------------------------
(***************************************************************************)
(* Geometry of a BS-UT link (TR 38.811 6.6.2, 38.901 7.5 step 1).          *)
(* Locations are <<x, y, z>> in metres, angles in degrees.                 *)
(***************************************************************************)
EXTENDS Tables

(* Slant range seen from a UT at sea level under elevation el of a BS at   *)
(* height h over a spherical Earth, TR 38.811 (6.6-3)                      *)
SlantRange(h, el) ==
    LET s == FSin(Rad(el))
    IN FSub(FSqrt(FAdd(FAdd(FMul(FSqr(RE), FSqr(s)), FSqr(h)), FMul(FMul(2, h), RE))),
            FMul(RE, s))

Dist2D(a, b) == FSqrt(FAdd(FSqr(FSub(a[1], b[1])), FSqr(FSub(a[2], b[2]))))

Wrap360(x) == FMod(x, 360)
(* Distance of two angles on the circle *)
AngDist(a, b) == LET d == FMod(FSub(a, b), 360) IN FMin(d, FSub(360, d))

(* Direction from the BS to the UT, and the opposite *)
Aod(bs, ut) == Wrap360(Deg(FAtan2(FSub(ut[2], bs[2]), FSub(ut[1], bs[1]))))
Aoa(bs, ut) == Wrap360(FAdd(Aod(bs, ut), 180))
Zod(bs, ut) == Deg(FAtan2(Dist2D(bs, ut), FSub(ut[3], bs[3])))
Zoa(bs, ut) == FSub(180, Zod(bs, ut))
(* rounding of the zenith [deg] at numbers with the relative error eps: near the vertical, where a satellite often is,
   it depends on the formula (an arc cosine loses half of the digits) and no formula is prescribed *)
ZenithTol(bs, ut, eps) ==
    LET d == Dist2D(bs, ut) h == FSub(bs[3], ut[3]) s == FDiv(d, FMax(FSqrt(FAdd(FSqr(d), FSqr(h))), "1e-30"))
    IN FDiv(FMul(240, eps), FMax(s, FSqrt(eps)))

(* ZoD offset of NLoS links, TR 38.901 table 7.5-8 *)
ZodOffset(los, d2d) ==
    IF los THEN 0
    ELSE FSub(FAtan(FDiv("31.5", d2d)), FAtan(FDiv("33.5", d2d)))

(* Unit vector of a direction, zenith and azimuth in degrees *)
UnitVec(z, a) == <<FMul(FSin(Rad(z)), FCos(Rad(a))),
                   FMul(FSin(Rad(z)), FSin(Rad(a))), FCos(Rad(z))>>
===============================================================================
