----------------------------- MODULE Coefficients -----------------------------
(***************************************************************************)
(* Channel coefficients of one link (TR 38.901 7.5 step 11, (7.5-22) to    *)
(* (7.5-30), with the Faraday rotation of TR 38.811 6.7.1).                *)
(*                                                                         *)
(* A link is a record                                                      *)
(*   tx, rx      arrays (Antenna)                                          *)
(*   txo, rxo    orientations [rad]                                        *)
(*   lam         wavelength                                                *)
(*   vel         velocity of the UT, moving: "tx" or "rx" end              *)
(*   rot         Faraday rotation angle [rad]                              *)
(*   los, k, d3  LoS state, K-factor (linear), slant range                 *)
(*   la, ld, lza, lzd   LoS angles of arrival/departure [rad]              *)
(*   P, T        cluster powers and delays                                 *)
(*   aoa, aod, zoa, zod, xpr, phi   per cluster and ray                    *)
(*   cds         cluster delay spread [s], "null" without sub-clusters     *)
(* Times are numbers in seconds.                                           *)
(***************************************************************************)
EXTENDS Antenna

TwoPi == "6.283185307179586"
Dot3(a, b) == FAdd(FMul(a[1], b[1]), FAdd(FMul(a[2], b[2]), FMul(a[3], b[3])))
Sph(z, a) == <<FMul(FSin(z), FCos(a)), FMul(FSin(z), FSin(a)), FCos(z)>>
ETheta(z, a) == <<FMul(FCos(z), FCos(a)), FMul(FCos(z), FSin(a)), FNeg(FSin(z))>>
EPhi(z, a) == <<FNeg(FSin(a)), FCos(a), F(0)>>

(* Rotations: bearing a about z, then downtilt b about y, then slant c      *)
(* about x (extrinsic order x, y, z).  Columns of the product.              *)
RotZ(a, v) == <<FSub(FMul(FCos(a), v[1]), FMul(FSin(a), v[2])),
                FAdd(FMul(FSin(a), v[1]), FMul(FCos(a), v[2])), F(v[3])>>
RotY(b, v) == <<FAdd(FMul(FCos(b), v[1]), FMul(FSin(b), v[3])), F(v[2]),
                FSub(FMul(FCos(b), v[3]), FMul(FSin(b), v[1]))>>
RotX(c, v) == <<F(v[1]), FSub(FMul(FCos(c), v[2]), FMul(FSin(c), v[3])),
                FAdd(FMul(FSin(c), v[2]), FMul(FCos(c), v[3]))>>
(* LCS -> GCS, and the inverse *)
ToGcs(o, v) == RotZ(o[1], RotY(o[2], RotX(o[3], v)))
ToLcs(o, v) == RotX(FNeg(o[3]), RotY(FNeg(o[2]), RotZ(FNeg(o[1]), v)))

(* Field (theta, phi) of an element in the GCS: the LCS components along    *)
(* the rotated LCS unit vectors, projected on the GCS unit vectors          *)
GcsField(pattern, slant, o, z, a) ==
    LET r == TLCEval(ToLcs(o, Sph(z, a)))
        zl == TLCEval(FAcos(FMax(-1, FMin(1, r[3]))))
        al == TLCEval(FAtan2(r[2], r[1]))
        f == Field(pattern, slant, zl, al)
        et == TLCEval(ToGcs(o, ETheta(zl, al)))
        ep == TLCEval(ToGcs(o, EPhi(zl, al)))
        v == TLCEval([i \in 1..3 |-> FAdd(FMul(f[1], et[i]), FMul(f[2], ep[i]))])
    IN <<Dot3(v, ETheta(z, a)), Dot3(v, EPhi(z, a))>>

(* Fields of the one or two polarizations of an array *)
Fields(arr, o, z, a) == [q \in 1..NPol(arr) |-> GcsField(arr.pattern, Slants(arr.ptype)[q], o, z, a)]
(* Array phases of all elements for the direction r *)
Phases(arr, o, lam, z, a) ==
    LET r == TLCEval(Sph(z, a))
    IN [n \in 1..NAnt(arr) |-> CExpI(FDiv(FMul(TwoPi, Dot3(r, ToGcs(o, ElemPos(arr, n)))), lam))]

CScale(s, c) == <<FMul(s, c[1]), FMul(s, c[2])>>
CAdd(a, b) == <<FAdd(a[1], b[1]), FAdd(a[2], b[2])>>

(* Faraday rotation [[c, -s], [s, c]] applied on the transmit side of M *)
Faraday(M, psi) ==
    LET c == FCos(psi) s == FSin(psi)
    IN << <<CAdd(CScale(c, M[1][1]), CScale(s, M[1][2])), CAdd(CScale(FNeg(s), M[1][1]), CScale(c, M[1][2]))>>,
          <<CAdd(CScale(c, M[2][1]), CScale(s, M[2][2])), CAdd(CScale(FNeg(s), M[2][1]), CScale(c, M[2][2]))>> >>
(* f^T M g with real f, g *)
Bilinear(f, M, g) ==
    CSum(<<CScale(FMul(f[1], g[1]), M[1][1]), CScale(FMul(f[1], g[2]), M[1][2]),
           CScale(FMul(f[2], g[1]), M[2][1]), CScale(FMul(f[2], g[2]), M[2][2])>>)

RayMatrix(phi, xpr) ==
    LET s == FSqrt(FDiv(1, xpr))
    IN << <<CExpI(phi[1]), CScale(s, CExpI(phi[2]))>>, <<CScale(s, CExpI(phi[3])), CExpI(phi[4])>> >>
LosMatrix == << <<<<F(1), F(0)>>, <<F(0), F(0)>>>>, <<<<F(0), F(0)>>, <<F(-1), F(0)>>>> >>

(* Rate of the phase of a ray due to the motion of the UT [rad/s] *)
MotionRate(L, aoa, zoa, aod, zod) ==
    FDiv(FMul(TwoPi, Dot3(IF L.moving = "rx" THEN Sph(zoa, aoa) ELSE Sph(zod, aod), L.vel)), L.lam)

(* Gain of a plane wave with matrix M, for every pair of elements: [u][s] *)
Wave(L, M, aoa, zoa, aod, zod) ==
    LET fr == TLCEval(Fields(L.rx, L.rxo, zoa, aoa)) ft == TLCEval(Fields(L.tx, L.txo, zod, aod))
        pr == TLCEval(Phases(L.rx, L.rxo, L.lam, zoa, aoa)) pt == TLCEval(Phases(L.tx, L.txo, L.lam, zod, aod))
        MF == TLCEval(Faraday(M, L.rot))
        g == TLCEval([q \in 1..NPol(L.rx) |-> [p \in 1..NPol(L.tx) |-> Bilinear(fr[q], MF, ft[p])]])
    IN [u \in 1..NAnt(L.rx) |-> [s \in 1..NAnt(L.tx) |->
          CMul(g[PolOf(L.rx, u)][PolOf(L.tx, s)], CMul(pr[u], pt[s]))]]

(* Ray m of cluster n: amplitude per element pair at time 0, and its rate *)
NRays(L) == Len(L.aoa[1])
Ray(L, n, m) ==
    [amp |-> Wave(L, RayMatrix(L.phi[n][m], L.xpr[n][m]), L.aoa[n][m], L.zoa[n][m], L.aod[n][m], L.zod[n][m]),
     rate |-> MotionRate(L, L.aoa[n][m], L.zoa[n][m], L.aod[n][m], L.zod[n][m])]

(* Sum over a set of rays (a sequence of ray numbers) of cluster n, per     *)
(* element pair and time: [u][s][i]                                         *)
Bundle(L, n, rays, times) ==
    LET R == TLCEval([j \in 1..Len(rays) |-> Ray(L, n, rays[j])])
        sc == FSqrt(FDiv(L.P[n], NRays(L)))
        ph == TLCEval([i \in 1..Len(times) |-> [j \in 1..Len(rays) |-> CScale(sc, CExpI(FMul(R[j].rate, times[i])))]])
    IN [u \in 1..NAnt(L.rx) |-> [s \in 1..NAnt(L.tx) |->
          LET a == TLCEval([j \in 1..Len(rays) |-> R[j].amp[u][s]])
          IN [i \in 1..Len(times) |-> CDot(a, ph[i])]]]

-------------------------------------------------------------------------------
(* Sub-clusters of the two strongest clusters (TR 38.901 table 7.5-5)       *)
SubRays == << <<1, 2, 3, 4, 5, 6, 7, 8, 19, 20>>, <<9, 10, 11, 12, 17, 18>>, <<13, 14, 15, 16>> >>
SubDelay == <<0, "1.28", "2.56">>
Strength(L) == FArgSort([n \in 1..Len(L.P) |-> FNeg(L.P[n])])
Strongest(L) == IF FIsNull(L.cds) THEN {} ELSE {Strength(L)[1], Strength(L)[2]}

(* Paths before sorting: records [n, rays, delay] *)
RECURSIVE PathsFrom(_, _, _)
PathsFrom(L, strong, n) ==
    IF n > Len(L.P) THEN <<>>
    ELSE (IF n \in strong
          THEN [i \in 1..3 |-> [n |-> n, rays |-> SubRays[i], delay |-> FAdd(L.T[n], FMul(SubDelay[i], L.cds))]]
          ELSE << [n |-> n, rays |-> [j \in 1..NRays(L) |-> j], delay |-> F(L.T[n])] >>)
         \o PathsFrom(L, strong, n + 1)
Paths(L) ==
    LET p == TLCEval(PathsFrom(L, TLCEval(Strongest(L)), 1))
        o == TLCEval(FArgSort([i \in 1..Len(p) |-> p[i].delay]))
    IN [i \in 1..Len(p) |-> p[o[i]]]

(* Specular path: per element pair and time *)
Specular(L, times) ==
    LET w == TLCEval(Wave(L, LosMatrix, L.la, L.lza, L.ld, L.lzd))
        r == MotionRate(L, L.la, L.lza, L.ld, L.lzd)
        d == CExpI(FDiv(FMul(TwoPi, L.d3), L.lam))
    IN [u \in 1..NAnt(L.rx) |-> [s \in 1..NAnt(L.tx) |-> [i \in 1..Len(times) |->
          CMul(CMul(w[u][s], d), CExpI(FMul(r, times[i])))]]]

Delays(L) == LET p == Paths(L) IN [i \in 1..Len(p) |-> p[i].delay]
(* Coefficients [path][u][s][time] *)
Coef(L, times) ==
    LET p == TLCEval(Paths(L))
        nlos == TLCEval([i \in 1..Len(p) |-> Bundle(L, p[i].n, p[i].rays, times)])
        wn == FSqrt(FDiv(1, FAdd(L.k, 1)))
        wl == FSqrt(FDiv(L.k, FAdd(L.k, 1)))
        sp == TLCEval(Specular(L, times))
    IN IF ~L.los THEN nlos
       ELSE [i \in 1..Len(p) |-> [u \in 1..NAnt(L.rx) |-> [s \in 1..NAnt(L.tx) |-> [j \in 1..Len(times) |->
               LET x == CScale(wn, nlos[i][u][s][j])
               IN IF i = 1 THEN CAdd(x, CScale(wl, sp[u][s][j])) ELSE x]]]]

(* Faraday rotation of a link with a BS at height h, carrier f [Hz] *)
SatHeight == 600000
FaradayAngle(h, f) == IF FLe(SatHeight, h) THEN Rad(FDiv(108, FSqr(FDiv(f, 1000000000)))) ELSE F(0)

(* Largest rate of the common phase rotation by the motion of a satellite   *)
(* at height h under elevation el [deg], TR 38.811 (5.3.4): [rad/s]         *)
GM == FMul("6.67430e-11", "5.972e24")
SatRate(h, el, lam) ==
    IF FLt(h, SatHeight) THEN F(0)
    ELSE FMul(FDiv(TwoPi, lam), FMul(FMul(FCos(Rad(el)), FDiv(RE, FAdd(RE, h))), FSqrt(FDiv(GM, FAdd(RE, h)))))
===============================================================================
