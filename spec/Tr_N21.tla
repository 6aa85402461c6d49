-------------------------------- MODULE Tr_N21 --------------------------------
(* Recorded types and double-precision values *)
EXTENDS CirLib, Pathloss, Precision
VARIABLE l

Near(x, y, rel) == FNear(x, y, "1e-300", rel)
Lnk(x) == (1..Len(x)) \X (1..Len(x[1])) \X (1..Len(x[1][1]))
At(x, k) == x[k[1]][k[2]][k[3]]

GeoClauses(e) ==
    LET K == Lnk(e.d2)
        b(k) == e.bs[k[1]][k[2]]  u(k) == e.ut[k[1]][k[3]]
    IN << <<"Distances", \A k \in K : Near(At(e.d2, k), Dist2D(b(k), u(k)), "1e-14") /\ Near(At(e.d3, k), SlantRange(b(k)[3], e.el), "1e-10")>>,
          <<"Angles", \A k \in K : FLe(AngDist(At(e.aod, k), Aod(b(k), u(k))), "1e-11") /\ FLe(AngDist(At(e.aoa, k), Aoa(b(k), u(k))), "1e-11")
                        /\ FNear(At(e.zod, k), Zod(b(k), u(k)), "1e-5", 0) /\ FNear(At(e.zoa, k), Zoa(b(k), u(k)), "1e-5", 0)>>,
          \* acos of a number close to 1 loses half of the digits, away from the poles it does not
          <<"ZenithAngles", \A k \in K : FLe(FSin(Rad(Zod(b(k), u(k)))), "0.1")
                        \/ (FNear(At(e.zod, k), Zod(b(k), u(k)), "1e-11", 0) /\ FNear(At(e.zoa, k), Zoa(b(k), u(k)), "1e-11", 0))>>,
          <<"FreeSpace", \A k \in K : Near(At(e.fspl, k), FreeSpace(e.f, At(e.d3, k)), "1e-13")>>,
          <<"Gas", \A k \in K : Near(At(e.gas, k), GasLoss(e.f, e.el, e.env), "1e-12")>>,
          <<"Scintillation", \A k \in K : Near(At(e.scint, k), ScintLoss(e.f, e.el, e.env), "1e-9")>>,
          <<"Wavelength", Near(e.lambda, FDiv(C0, FMul(e.f, 1000000000)), "1e-15")>>,
          <<"BasicNoShadowing", \A k \in K : Near(At(e.basic, k), FAdd(FreeSpace(e.f, At(e.d3, k)), Clutter(e, At(e.los, k))), "1e-13")>>,
          <<"Parameters", \A k \in K : \A i \in 1..7 : (Near(At(e.mean, k)[i], LspMean(e, At(e.los, k), i), "1e-15") \/ FEq(At(e.mean, k)[i], LspMean(e, At(e.los, k), i)))
                                          /\ Near(At(e.std, k)[i], LspStd(e, At(e.los, k), i), "1e-15")>>,
          <<"ZodOffset", \A k \in K : FNear(At(e.zodoff, k), ZodOffset(At(e.los, k), At(e.d2, k)), "1e-15", "1e-12")>> >>

(* generated topology with degenerate ranges: every value is known *)
TopoClauses(e) ==
    LET K == (1..Len(e.ut)) \X (1..Len(e.ut[1]))
        U(k) == e.ut[k[1]][k[2]]  V(k) == e.vel[k[1]][k[2]]  O(k) == e.uto[k[1]][k[2]]
    IN << <<"UtHeight", \A k \in K : Near(U(k)[3], e.height, "1e-15")>>,
          <<"BsHeight", \A x \in 1..Len(e.bs) : Near(e.bs[x][1][3], e.bsh, "1e-15")>>,
          <<"Speed", \A k \in K : Near(FSqrt(FSum(<<FSqr(V(k)[1]), FSqr(V(k)[2]), FSqr(V(k)[3])>>)), e.speed, "1e-14")>>,
          <<"Bearing", \A k \in K : LET a == FAtan2(U(k)[2], U(k)[1]) d == FMod(FSub(O(k)[1], a), FMul(2, PI)) IN
                \* known up to half turns: the exact rule is N18's
                FLe(FMin(FMod(d, PI), FSub(PI, FMod(d, PI))), "1e-12")>> >>

ArrayClauses(e) ==
    LET a == e.arr  n == NAnt(a) IN
    << <<"Spacings", FNearAll(e.spacings, <<Pv(a), Ph(a), Ev(a), Eh(a)>>, 0, "1e-15")>>,
       <<"Positions", FNearAll(e.pos, [i \in 1..n |-> ElemPos(a, i)], FMul(Lambda(a), "1e-14"), "1e-14")>>,
       <<"Fields", a.pattern \in {"aperture", "dlp"} \/ \A i \in 1..Len(e.dirs) :
            LET x == Field(a.pattern, e.slant, e.dirs[i][1], e.dirs[i][2])
            IN FNear(e.ft[i], x[1], "1e-12", 0) /\ FNear(e.fp[i], x[2], "1e-12", 0)>> >>

(* exponential and one-ring correlation matrices *)
CPow(a, n) == IF n = 0 THEN <<"1", "0">> ELSE LET r == FSqrt(FAdd(FSqr(a[1]), FSqr(a[2]))) t == FMul(n, FAtan2(a[2], a[1])) IN
              <<FMul(FPow(r, n), FCos(t)), FMul(FPow(r, n), FSin(t))>>
CorrClauses(e) ==
    LET n == Len(e.exp)
        E(i, j) == IF i >= j THEN CPow(e.a, i - j) ELSE LET z == CPow(e.a, j - i) IN <<z[1], FNeg(z[2])>>
        w(i, j) == FMul(FMul(2, PI), FMul(e.dh, i - j))
        ph == Rad(e.phi)
        R(i, j) == LET m == FExp(FNeg(FDiv(FSqr(FMul(Rad(e.sigma), FMul(w(i, j), FCos(ph)))), 2)))
                       z == CExpI(FMul(w(i, j), FSin(ph))) IN <<FMul(m, z[1]), FMul(m, z[2])>>
    IN << <<"Exponential", \A i, j \in 1..n : FNearAll(e.exp[i][j], E(i, j), e.tol, 0)>>,
          <<"OneRing", \A i, j \in 1..n : FNearAll(e.ring[i][j], R(i, j), e.tol, 0)>> >>

TightTol(L) == FAdd("1e-11", FMul("4e-15", FDiv(L.d3, L.lam)))

Clauses(e) ==
    CASE e.ev = "begin" -> <<>>
      [] e.ev = "types" -> [i \in 1..Len(e.names) |-> <<"Type:" \o e.names[i], e.types[i] \in Types(e.prec)>>]
      [] e.ev = "outputs" -> << <<"ChannelType", e.a = ComplexType(e.prec) /\ e.tau = RealType(e.prec)>>,
                                <<"Finite", FAllFinite(e.energy)>> >>
      [] e.ev = "geo" -> GeoClauses(e)
      [] e.ev = "topo" -> TopoClauses(e)
      [] e.ev = "array" -> ArrayClauses(e)
      [] e.ev = "corr" -> CorrClauses(e)
      [] e.ev = "cir" ->
         IF ~CirShape(e) THEN << <<"Shape", FALSE>> >>
         ELSE << <<"Coefficients", \A k \in CirLinks(e) : CoefOk(e, k, TightTol)>>,
                 <<"Delays", \A k \in CirLinks(e) : DelayOk(e, k, "1e-20", "1e-13")>> >>
      [] OTHER -> << <<"Completes", FALSE>> >>

Init == l = 1
Next == \/ l <= Len(Trace) /\ Judge(l, Clauses(Trace[l])) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done /\ l' = l + 1
===============================================================================
