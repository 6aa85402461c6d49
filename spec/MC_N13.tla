-------------------------------- MODULE MC_N13 --------------------------------
(* Coefficients: theorems of the field transformation on a grid (MC), cases (Gen) *)
EXTENDS Coefficients, Json

CONSTANTS Quick
VARIABLE c

Angles == IF Quick THEN {"-2.5", "-0.4", "1.1", "3"} ELSE {"-3.1", "-2.5", "-1.2", "-0.4", "0", "0.7", "1.1", "2.2", "3"}
Zeniths == IF Quick THEN {"0.3", "1.4", "2.8"} ELSE {"0.1", "0.3", "0.9", "1.4", "2", "2.8"}
Init == c \in [o1 : Angles, o2 : Angles, o3 : Angles, z : Zeniths, a : Angles, slant : {"0", "0.6", "1.5707963267948966"}]
Next == FALSE /\ UNCHANGED c

o == <<c.o1, c.o2, c.o3>>
r == Sph(c.z, c.a)
tol == "1e-12"
(* the two rotations are inverse and isometric *)
Inverse == FNearAll(ToGcs(o, ToLcs(o, r)), r, tol, 0)
Isometric == FNear(Dot3(ToLcs(o, r), ToLcs(o, r)), 1, tol, 0)
(* 7.1-4 of TR 38.901, first column and last row *)
Matrix == /\ FNearAll(ToGcs(o, <<1, 0, 0>>),
                      <<FMul(FCos(c.o1), FCos(c.o2)), FMul(FSin(c.o1), FCos(c.o2)), FNeg(FSin(c.o2))>>, tol, 0)
          /\ FNear(ToGcs(o, <<0, 1, 0>>)[3], FMul(FCos(c.o2), FSin(c.o3)), tol, 0)
          /\ FNear(ToGcs(o, <<0, 0, 1>>)[3], FMul(FCos(c.o2), FCos(c.o3)), tol, 0)
(* the field keeps its power in the GCS, and its polarizations stay orthogonal *)
PowerKept == LET f == GcsField("omni", c.slant, o, c.z, c.a) IN FNear(FAdd(FSqr(f[1]), FSqr(f[2])), 1, "1e-9", 0)
Orthogonal == LET f == GcsField("omni", c.slant, o, c.z, c.a)
                  g == GcsField("omni", FAdd(c.slant, HalfPi), o, c.z, c.a)
              IN FNear(FAdd(FMul(f[1], g[1]), FMul(f[2], g[2])), 0, "1e-9", 0)
(* 7.1-11 with the displacement angle 7.1-15 *)
Psi == LET a == FSub(c.a, c.o1)
           re == FAdd(FMul(FSin(c.o3), FMul(FCos(c.z), FSin(a))),
                      FMul(FCos(c.o3), FSub(FMul(FCos(c.o2), FSin(c.z)), FMul(FSin(c.o2), FMul(FCos(c.z), FCos(a))))))
           im == FAdd(FMul(FSin(c.o3), FCos(a)), FMul(FSin(c.o2), FMul(FCos(c.o3), FSin(a))))
       IN FAtan2(im, re)
Displaced == FNearAll(GcsField("omni", c.slant, o, c.z, c.a),
                      <<FCos(FAdd(Psi, c.slant)), FSin(FAdd(Psi, c.slant))>>, "1e-9", 0)
(* a rotation on the transmit side keeps the total power of a matrix *)
M == RayMatrix(<<c.o1, c.o2, c.o3, c.a>>, "2.5")
Pow(X) == FSum([i \in 1..4 |-> LET y == X[((i - 1) \div 2) + 1][((i - 1) % 2) + 1] IN FAdd(FSqr(y[1]), FSqr(y[2]))])
Unitary == FNear(Pow(Faraday(M, c.z)), Pow(M), tol, 0)

-------------------------------------------------------------------------------
Cases == [moving : {"tx", "rx"}, ntx : {1, 2}, nrx : {1, 2}, b : {1, 2}, ncl : {2, 3}, tpol : {"single", "dual"},
          rpol : {"single", "dual"}, pattern : {"omni", "sector"}, prec : {"double", "single"}, sat : {TRUE, FALSE}]
GenInit == c \in Cases /\ PrintT("CASE " \o ToJson(c))
===============================================================================
