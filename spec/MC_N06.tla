-------------------------------- MODULE MC_N06 --------------------------------
(* Geometry: theorems of the link geometry on a grid (MC), test cases (Gen) *)
EXTENDS Geometry, TLC, Json

CONSTANTS Quick
VARIABLE c

Grid == {-300, -1, 0, 1, 200}
Heights == {8000, 159000, 600000, 1200000, 35786000}
Els == IF Quick THEN {10, 12, 25, 45, 67, 80, 89, 90} ELSE 10..90
Init == c \in [ux : Grid, uy : Grid, bx : {0, 50}, by : {0, -70}, hu : {1, 30}, hb : Heights, el : Els]
Next == FALSE /\ UNCHANGED c

bs == <<c.bx, c.by, c.hb>>
ut == <<c.ux, c.uy, c.hu>>
d == SlantRange(c.hb, c.el)
tol == "1e-7"

(* (R+h)^2 = R^2 + d^2 + 2 R d sin(el): the triangle Earth centre - UT - BS *)
Triangle == FNear(FSqr(FAdd(RE, c.hb)),
                  FSum(<<FSqr(RE), FSqr(d), FMul(FMul(2, FMul(RE, d)), FSin(Rad(c.el)))>>), 0, "1e-9")
Overhead == c.el = 90 => FNear(d, c.hb, "1e-3", 0)
NotCloser == FLe(FSub(c.hb, "1e-3"), d)
Monotone == c.el < 90 => FLt(SlantRange(c.hb, c.el + 1), d)
Opposite == /\ FNear(AngDist(Aod(bs, ut), Aoa(bs, ut)), 180, tol, 0)
            /\ FNear(FAdd(Zod(bs, ut), Zoa(bs, ut)), 180, tol, 0)
            /\ LET p == UnitVec(Zod(bs, ut), Aod(bs, ut)) q == UnitVec(Zoa(bs, ut), Aoa(bs, ut))
               IN \A i \in 1..3 : FNear(p[i], FNeg(q[i]), tol, 0)
(* the departure direction points from the BS to the UT *)
Points == LET p == UnitVec(Zod(bs, ut), Aod(bs, ut))
              len == FSqrt(FSum([i \in 1..3 |-> FSqr(FSub(ut[i], bs[i]))]))
          IN \A i \in 1..3 : FNear(FMul(p[i], len), FSub(ut[i], bs[i]), "1e-3", "1e-9")
Ranges == /\ \A a \in {Aod(bs, ut), Aoa(bs, ut)} : FLe(0, a) /\ FLt(a, 360)
          /\ \A z \in {Zod(bs, ut), Zoa(bs, ut)} : FLe(0, z) /\ FLe(z, 180)
Theorems == Triangle /\ Overhead /\ NotCloser /\ Monotone /\ Opposite /\ Points /\ Ranges

-------------------------------------------------------------------------------
Cases == {x \in [scn : ScnNames, dir : Directions, f : {"2", "20", "30"}, el : {"10", "12.5", "37.3", "63", "81", "90"},
                 b : {1, 2, 3}, nb : {1, 2, 3}, nu : {1, 2, 4}, heights : {"same", "mixed"}, prec : {"single", "double"}] :
          /\ x.b * x.nb * x.nu <= 12
          /\ (x.b = 1 /\ x.nb = 1) => x.heights = "same"}
GenInit == c \in Cases /\ PrintT("CASE " \o ToJson(c))
===============================================================================
