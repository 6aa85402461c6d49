-------------------------------- MODULE Topo ---------------------------------
(***************************************************************************)
(* Generated topologies: documented defaults, the square in which UTs are  *)
(* dropped, relocation to sectors and cells, orientation towards the BS.   *)
(***************************************************************************)
EXTENDS Tables, Sequences, FiniteSets

ParNames == {"isd", "bs_height", "elevation_angle", "min_ut_height", "max_ut_height", "indoor_probability",
             "min_ut_velocity", "max_ut_velocity"}
ParOrder == <<"isd", "bs_height", "elevation_angle", "min_ut_height", "max_ut_height", "indoor_probability",
              "min_ut_velocity", "max_ut_velocity">>
Default(scn, p) ==
    CASE p = "isd" -> (CASE scn = "dur" -> 200 [] scn = "urb" -> 500 [] scn = "sur" -> 5000)
      [] p = "bs_height" -> 600000
      [] p = "elevation_angle" -> 80
      [] p \in {"min_ut_height", "max_ut_height"} -> "1.5"
      [] p \in {"indoor_probability", "min_ut_velocity", "max_ut_velocity"} -> 0
(* given: a function or record of the parameters given, null where left out *)
Value(scn, given, p) == IF p \notin DOMAIN given \/ FIsNull(given[p]) THEN Default(scn, p) ELSE given[p]

(* distance of the centre of the square from the BS, in the plane *)
Radius(h, el) == IF FEq(el, 90) THEN "0" ELSE FDiv(h, FTan(Rad(el)))

(* rotation by one third of a turn per sector, and translation *)
Turn(p, sector) == LET a == FMul(sector, FDiv(FMul(2, PI), 3)) IN
    <<FSub(FMul(FCos(a), p[1]), FMul(FSin(a), p[2])), FAdd(FMul(FSin(a), p[1]), FMul(FCos(a), p[2]))>>
Relocate(p, sector, cell) == LET q == Turn(p, sector) IN <<FAdd(q[1], cell[1]), FAdd(q[2], cell[2])>>
Back(p, sector, cell) == Turn(<<FSub(p[1], cell[1]), FSub(p[2], cell[2])>>, -sector)

(* orientation <<bearing, downtilt, slant>> of a UT, and where its array then looks to *)
UtOrientation(p, el) == <<FAtan2(p[2], p[1]), Rad(FAdd(el, 180)), Rad(FAdd(el, 90))>>
BsOrientation == <<0, FDiv(PI, 2), 0>>
Boresight(o) == <<FMul(FCos(o[1]), FCos(o[2])), FMul(FSin(o[1]), FCos(o[2])), FNeg(FSin(o[2]))>>
Facing(p, el) == LET r == FSqrt(FAdd(FSqr(p[1]), FSqr(p[2]))) IN       \* towards the axis, at that elevation
    <<FMul(FNeg(FDiv(p[1], r)), FCos(Rad(el))), FMul(FNeg(FDiv(p[2], r)), FCos(Rad(el))), FSin(Rad(el))>>

(* A set of UTs fits into a square of side isd, parallel to the axes, whose centre is on the circle of radius R:
   the rectangle of possible centres meets the circle. *)
Xs(S) == [i \in DOMAIN S |-> S[i][1]]
Ys(S) == [i \in DOMAIN S |-> S[i][2]]
FitsSquare(S, isd, R, tol) ==
    LET h == FDiv(isd, 2)
        x0 == FSub(FSub(FMaxSeq(Xs(S)), h), tol) x1 == FAdd(FAdd(FMinSeq(Xs(S)), h), tol)
        y0 == FSub(FSub(FMaxSeq(Ys(S)), h), tol) y1 == FAdd(FAdd(FMinSeq(Ys(S)), h), tol)
        Near0(a, b) == IF FLe(a, 0) /\ FLe(0, b) THEN "0" ELSE FMin(FAbs(a), FAbs(b))
        Far0(a, b) == FMax(FAbs(a), FAbs(b))
        Hyp(a, b) == FSqrt(FAdd(FSqr(a), FSqr(b)))
    IN FLe(x0, x1) /\ FLe(y0, y1)
       /\ FLe(Hyp(Near0(x0, x1), Near0(y0, y1)), FAdd(R, tol))
       /\ FLe(R, FAdd(Hyp(Far0(x0, x1), Far0(y0, y1)), tol))

(* n values spread over [a, b]: uniform, judged at six standard errors *)
Range(s) == FSub(FMaxSeq(s), FMinSeq(s))
Mean(s) == FDiv(FSum(s), Len(s))
UniformOn(s, a, b) ==
    LET w == FSub(b, a) n == Len(s) IN
    \/ FLe(w, "1e-9")
    \/ n < 40
    \/ /\ FNear(Mean(s), FDiv(FAdd(a, b), 2), FMul(w, FDiv("1.7320508", FSqrt(n))), 0)
       /\ LET m == FDiv(FAdd(a, b), 2)
              v == Mean([i \in DOMAIN s |-> FSqr(FDiv(FSub(s[i], m), w))])
          IN FNear(v, "0.0833333", FDiv("0.4472136", FSqrt(n)), 0)      \* variance of x^2: 1/180
===============================================================================
