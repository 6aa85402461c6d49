-------------------------------- MODULE Tr_N23 --------------------------------
(* Recorded correlation matrices and angle helpers against Tdl *)
EXTENDS TraceLib, Tdl
VARIABLE l
Dbl(e) == e.prec = "double"
Tol(e) == IF Dbl(e) THEN "1e-11" ELSE "2e-5"
Type(e) == e.type = IF Dbl(e) THEN "complex128" ELSE "complex64"
RType(e) == e.type = IF Dbl(e) THEN "float64" ELSE "float32"
Want(e, i) == IF e.ev = "exp" THEN Exponential(e.a[i], e.n) ELSE OneRing(e.phi[i], e.sigma, e.d, e.n)
Matrices(e) ==
    << <<"Shape", e.out = e.dims \o <<e.n, e.n>> /\ FAllFinite(e.r)>>,
       <<"Definition", \A i \in DOMAIN e.r : FNearAll(e.r[i], Want(e, i), Tol(e), 0)>>,
       <<"Hermitian", \A i \in DOMAIN e.r : Hermitian(e.r[i], Tol(e))>>,
       <<"UnitDiagonal", \A i \in DOMAIN e.r : UnitDiagonal(e.r[i], Tol(e))>>,
       <<"Psd", Dbl(e) => \A i \in DOMAIN e.r : Psd(e.r[i], "1e-8")>>,
       <<"Type", Type(e)>> >>
Clauses(e) ==
    CASE e.ev = "begin" -> <<>>
      [] e.ev \in {"exp", "ring"} -> Matrices(e)
      [] e.ev = "refused" -> << <<"Refused", ~e.ok>> >>
      [] e.ev = "angle" ->
         << <<"Shape", e.out = e.dims>>,
            <<"Degrees", \A i \in DOMAIN e.x : FNear(e.rad[i], Rad(e.x[i]), "1e-30", Tol(e)) /\ FNear(e.deg[i], Deg(e.x[i]), "1e-30", Tol(e))>>,
            <<"Range", \A i \in DOMAIN e.x : FLe(0, e.wrap[i]) /\ FLe(e.wrap[i], 360)>>,
            <<"SameDirection", \A i \in DOMAIN e.x : FNearAll(CExpI(Rad(e.wrap[i])), CExpI(Rad(e.x[i])), Tol(e), 0)>>,
            <<"Type", RType(e)>> >>
      [] e.ev = "coin" ->
         << <<"Shape", e.out = e.dims /\ e.type = "bool">>,
            <<"Certain", \A i \in DOMAIN e.p : (FEq(e.p[i], 0) => e.hits[i] = 0) /\ (FEq(e.p[i], 1) => e.hits[i] = e.n)>>,
            <<"Frequency", \A i \in DOMAIN e.p : FLe(FAbs(FSub(e.hits[i], FMul(e.n, e.p[i]))),
                               FAdd(3, FMul("6.5", FSqrt(FMul(e.n, FMul(e.p[i], FSub(1, e.p[i])))))))>>,
            <<"Independent", FLe(FAbs(FSub(e.pairs, FMul(e.n, e.both))), FAdd(3, FMul("6.5", FSqrt(FMul(e.n, FMul(e.both, FSub(1, e.both)))))))>> >>
      [] OTHER -> << <<"Completes", FALSE>> >>
Init == l = 1
Next == \/ l <= Len(Trace) /\ Judge(l, Clauses(Trace[l])) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done /\ l' = l + 1
===============================================================================
