-------------------------------- MODULE Tr_N17 --------------------------------
(* Recorded arrays and element fields against Antenna *)
EXTENDS TraceLib, Antenna
VARIABLE l

Seq2(n, P(_)) == SelectSeq([i \in 1..n |-> i], P)
Dbl(e) == e.prec = "double"
(* a direction on the rim of a pattern is not judged: within rounding of the half space limit *)
Rim(p, d) == p = "aperture" /\ FLe(FAbs(FMul(FSin(d[1]), FCos(d[2]))), IF p = "aperture" THEN "1e-5" ELSE 0)

Clauses(e) ==
    CASE e.ev = "begin" -> <<>>
      [] e.ev = "array" ->
         LET a == e.arr n == NAnt(a)
             tol == FMul(Lambda(a), IF Dbl(e) THEN "1e-11" ELSE "1e-5")
             Ind(q) == SelectSeq([i \in 1..n |-> i], LAMBDA i : PolOf(a, i) = q)
             Pos(S) == [j \in 1..Len(S) |-> ElemPos(a, S[j])]
             IndOk(q, x) == Len(x) = Len(Ind(q)) /\ \A j \in 1..Len(x) : x[j] + 1 = Ind(q)[j]
         IN << <<"Count", e.n = n /\ e.panels = a.pr * a.pc /\ e.perpanel = a.nr * a.nc * NPol(a)>>,
               <<"Dimensions", e.dims = <<a.pr, a.pc, a.nr, a.nc>> >>,
               <<"Spacings", FNearAll(e.spacings, <<Pv(a), Ph(a), Ev(a), Eh(a)>>, 0, "1e-6")>>,
               <<"Positions", HasShape(e.pos, <<n, 3>>) /\ FNearAll(e.pos, [i \in 1..n |-> ElemPos(a, i)], tol, 0)>>,
               <<"Polarizations", e.pol = a.pol /\ e.ptype = a.ptype /\ IndOk(1, e.ind1) /\ (a.pol = "dual" => IndOk(2, e.ind2))>>,
               <<"PositionsPerPolarization", HasShape(e.pos1, <<Len(Ind(1)), 3>>) /\ FNearAll(e.pos1, Pos(Ind(1)), tol, 0)
                    /\ (a.pol = "dual" => HasShape(e.pos2, <<Len(Ind(2)), 3>>) /\ FNearAll(e.pos2, Pos(Ind(2)), tol, 0))>>,
               \* second polarization is not defined for single polarization
               <<"NoSecondPolarization", a.pol = "single" => e.second = FALSE>> >>
      [] e.ev = "field" ->     \* dirs: <<theta, phi>>, f: <<f_theta, f_phi>> per direction
         LET N == Len(e.dirs)
             tol == IF Dbl(e) THEN "1e-6" ELSE "2e-3"
         IN << <<"Field:" \o e.pattern, Len(e.ft) = N /\ Len(e.fp) = N /\ \A i \in 1..N :
                    Rim(e.pattern, e.dirs[i]) \/
                    LET x == Field(e.pattern, e.slant, e.dirs[i][1], e.dirs[i][2])
                    IN FNear(e.ft[i], x[1], tol, 0) /\ FNear(e.fp[i], x[2], tol, 0)>> >>
      [] OTHER -> << <<"Completes", FALSE>> >>

Init == l = 1
Next == \/ l <= Len(Trace) /\ Judge(l, Clauses(Trace[l])) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done /\ l' = l + 1
===============================================================================
