-------------------------------- MODULE Tr_N18 --------------------------------
(* Recorded topologies against Topo *)
EXTENDS TraceLib, Topo
VARIABLE l

Eps(e) == IF e.prec = "double" THEN "4e-15" ELSE "1e-6"
V(e, p) == Value(e.scn, e.given, p)
(* rounding of the distance of the centre: cancellation close to the zenith *)
PosTol(e) == LET h == V(e, "bs_height") R == FMax(Radius(h, V(e, "elevation_angle")), "1e-9") IN
    FAdd(FAdd(IF e.prec = "double" THEN "1e-9" ELSE "1e-2", FMul(Eps(e), V(e, "isd"))),
         FMin(FMul(h, FSqrt(FMul(Eps(e), 2))), FMul(Eps(e), FAdd(R, FDiv(FSqr(h), R)))))
RadiusOf(e) == Radius(V(e, "bs_height"), V(e, "elevation_angle"))
Flat(x) == Cat(x)                                    \* [batch, ut] -> one sequence
RealType(e) == IF e.prec = "double" THEN "float64" ELSE "float32"
Mod2Pi(a, b) == LET d == FMod(FSub(a, b), FMul(2, PI)) IN FMin(d, FSub(FMul(2, PI), d))

(* some of the three sectors brings the UT back into reach of the square; the sector is not observed *)
BackNear(p, cell, R, isd, tol) ==
    {s \in 0..2 : LET q == Back(p, s, cell) d == FMul(isd, "0.5") r == FSqrt(FAdd(FSqr(q[1]), FSqr(q[2]))) IN
        FLe(FAbs(FSub(r, R)), FAdd(FMul(FSqrt(2), d), tol)) /\ FLe(FNeg(FAdd(d, tol)), q[1]) /\ FLe(FNeg(FAdd(d, tol)), q[2])}

Speeds(e) == LET v == Flat(e.vel) IN TLCEval([i \in DOMAIN v |-> FSqrt(FAdd(FSqr(v[i][1]), FSqr(v[i][2])))])
Heights(e) == LET u == Flat(e.ut) IN TLCEval([i \in DOMAIN u |-> u[i][3]])
InRange(s, lo, hi, rel) == LET t == FMul(rel, FMax(1, FAbs(hi))) IN
    \A i \in DOMAIN s : FLe(FSub(lo, t), s[i]) /\ FLe(s[i], FAdd(hi, t))

(* Every UT of every batch example is drawn on its own: few share a value with the same UT of the first  *)
(* example, or with the first UT of their example (such values coincide only by chance)                  *)
Separate(e, x, Near(_, _)) ==
    LET P == (1..e.b) \X (1..e.nu) IN
    /\ 4 * Cardinality({p \in P : p[1] > 1 /\ Near(x[p[1]][p[2]], x[1][p[2]])}) <= e.b * e.nu
    /\ 4 * Cardinality({p \in P : p[2] > 1 /\ Near(x[p[1]][p[2]], x[p[1]][1])}) <= e.b * e.nu
Wide(e, lo, hi) == FLt(FMul("1e-3", FAdd(1, V(e, hi))), FSub(V(e, hi), V(e, lo)))
SamePlace(a, b) == FEq(a[1], b[1]) /\ FEq(a[2], b[2])
SameHeight(a, b) == FEq(a[3], b[3])
Pace(v) == FSqrt(FAdd(FSqr(v[1]), FSqr(v[2])))
SamePace(a, b) == FNear(Pace(a), Pace(b), 0, "2e-7")
(* sine of the angle between the headings, and not opposite *)
SameHeading(a, b) == LET n == FMul(Pace(a), Pace(b)) IN
    /\ FLe(FAbs(FSub(FMul(a[1], b[2]), FMul(a[2], b[1]))), FMul(n, "1e-5"))
    /\ FLe(0, FAdd(FMul(a[1], b[1]), FMul(a[2], b[2])))

UtClauses(e) ==
    LET u == TLCEval(Flat(e.ut)) o == Flat(e.uto) v == Flat(e.vel)
        el == V(e, "elevation_angle")
        tol == TLCEval(PosTol(e))
        dbl == e.prec = "double"
        R == TLCEval(RadiusOf(e))
    IN << <<"Shapes", /\ HasShape(e.ut, <<e.b, e.nu, 3>>) /\ HasShape(e.uto, <<e.b, e.nu, 3>>)
                      /\ HasShape(e.vel, <<e.b, e.nu, 3>>) /\ HasShape(e.ind, <<e.b, e.nu>>)>>,
          <<"Outdoor", \A i \in 1..e.b, j \in 1..e.nu : e.ind[i][j] = FALSE>>,
          <<"Square", IF e.area = "cell" THEN \A i \in DOMAIN u : BackNear(u[i], e.cell, R, V(e, "isd"), tol) # {}
                      ELSE FitsSquare([i \in DOMAIN u |-> <<FSub(u[i][1], e.cell[1]), FSub(u[i][2], e.cell[2])>>], V(e, "isd"), R, tol)>>,
          <<"Spread", e.area = "cell" \/ Len(u) < 40 \/
                LET Dev(S) == FSqrt(FSub(Mean([i \in DOMAIN S |-> FSqr(FSub(S[i], S[1]))]), FSqr(FSub(Mean(S), S[1])))) IN
                \A S \in {Xs(u), Ys(u)} : FNear(Dev(S), FMul(V(e, "isd"), "0.288675"),
                      FAdd(tol, FMul(V(e, "isd"), FDiv("0.9", FSqrt(Len(u))))), 0)>>,
          <<"Heights", InRange(Heights(e), V(e, "min_ut_height"), V(e, "max_ut_height"), Eps(e))>>,
          <<"HeightSpread", UniformOn(Heights(e), V(e, "min_ut_height"), V(e, "max_ut_height"))>>,
          <<"Speeds", InRange(Speeds(e), V(e, "min_ut_velocity"), V(e, "max_ut_velocity"), Eps(e))
                      /\ \A i \in DOMAIN v : FEq(v[i][3], 0)>>,
          <<"SpeedSpread", UniformOn(Speeds(e), V(e, "min_ut_velocity"), V(e, "max_ut_velocity"))>>,
          <<"SeparateUts", /\ FLe(V(e, "isd"), FMul(FMul(12, Eps(e)), R)) \/ Separate(e, e.ut, SamePlace)
                           /\ Wide(e, "min_ut_height", "max_ut_height") => Separate(e, e.ut, SameHeight)
                           /\ Wide(e, "min_ut_velocity", "max_ut_velocity") => Separate(e, e.vel, SamePace)
                           /\ FLe("0.1", V(e, "max_ut_velocity")) => Separate(e, e.vel, SameHeading)>>,
          <<"Headings", FLe(V(e, "max_ut_velocity"), "1e-6") \/ Len(v) < 40 \/
                 LET s == Speeds(e) n == Len(v) IN \A k \in {1, 2} :
                     FNear(Mean([i \in 1..n |-> IF FEq(s[i], 0) THEN 0 ELSE FDiv(v[i][k], s[i])]), 0, FDiv(5, FSqrt(n)), 0)>>,
          <<"FacesBs", \A i \in DOMAIN u : LET a == IF dbl THEN "1e-7" ELSE "3e-5" p == <<u[i][1], u[i][2]>> IN
                 /\ FNearAll(Boresight(o[i]), Facing(p, el), a, 0)
                 /\ FLe(Mod2Pi(o[i][3], Rad(FAdd(el, 90))), a)>>,
          <<"Types", \A k \in DOMAIN e.types : e.types[k] = IF k = "ind" THEN "bool" ELSE RealType(e)>> >>

BsClauses(e) ==
    IF FIsNull(e.bs) THEN <<>> ELSE
    << <<"BsShapes", HasShape(e.bs, <<e.b, 1, 3>>) /\ HasShape(e.bso, <<e.b, 1, 3>>)>>,
       <<"BsLocation", \A i \in 1..e.b : FNearAll(e.bs[i][1], <<0, 0, V(e, "bs_height")>>, 0, Eps(e))>>,
       <<"BsDown", \A i \in 1..e.b : FNearAll(e.bso[i][1], BsOrientation, Eps(e), 0)>> >>

Clauses(e) ==
    CASE e.ev = "begin" -> <<>>
      [] e.ev = "params" ->
         << <<"Defaults", \A k \in 1..8 : LET p == ParOrder[k] x == Value(e.scn, e.given, p) IN FNear(e.out[k], x, 0, Eps(e))>> >>
      [] e.ev = "topo" -> UtClauses(e) \o BsClauses(e)
      [] e.ev = "drop" ->
         << <<"Square", FitsSquare(Flat(e.ut), V(e, "isd"), RadiusOf(e), PosTol(e))>>,
            <<"Shapes", HasShape(e.ut, <<e.b, e.nu, 2>>)>>,
            <<"Types", \A k \in DOMAIN e.types : e.types[k] = RealType(e)>> >>
      [] e.ev = "relocate" ->
         << <<"Relocated", HasShape(e.out, <<e.b, e.nu, 2>>) /\ \A i \in 1..e.b, j \in 1..e.nu :
                 FNearAll(e.out[i][j], Relocate(e.loc[i][j], e.sector[i][j], e.cell[i][j]), IF e.prec = "double" THEN "1e-6" ELSE "2", 0)>>,
            <<"Types", \A k \in DOMAIN e.types : e.types[k] = RealType(e)>> >>
      [] e.ev = "accepted" ->
         << <<"Accepted", HasShape(e.d3d, <<e.b, 1, e.nu>>) /\ FAllFinite(e.d3d) /\ e.outdoor>> >>
      [] OTHER -> << <<"Completes", FALSE>> >>

Init == l = 1
Next == \/ l <= Len(Trace) /\ Judge(l, Clauses(Trace[l])) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done /\ l' = l + 1
===============================================================================
