-------------------------------- MODULE Tr_N13 --------------------------------
(* Recorded coefficients against the formula of the standard *)
EXTENDS CirLib
VARIABLE l

Clauses(e) ==
    CASE e.ev = "begin" -> <<>>
      [] e.ev = "cir" ->
         IF ~CirShape(e) THEN << <<"Shape", FALSE>> >>
         ELSE LET dbl == ~Has(e, "prec") \/ e.prec = "double"
                  tol(L) == IF dbl THEN PhaseTol(L) ELSE "3e-3"
              IN << <<"LosLinks", \A k \in CirLinks(e) : e.topo.los[k[1]][k[2]][k[3]] => CoefOk(e, k, tol)>>,
                    <<"NlosLinks", \A k \in CirLinks(e) : ~e.topo.los[k[1]][k[2]][k[3]] => CoefOk(e, k, tol)>>,
                    <<"Delays", \A k \in CirLinks(e) : DelayOk(e, k, "1e-14", "1e-6")>> >>
      [] e.ev = "phases" ->      \* initial phases are uniform on the circle and independent
         LET n == Len(e.x)
             m(f(_)) == FDiv(FSum([i \in 1..n |-> f(e.x[i])]), n)
             lim == FDiv(6, FSqrt(n))
             Cos1(v) == FCos(v) Sin1(v) == FSin(v) Cos2(v) == FCos(FMul(2, v)) Sin2(v) == FSin(FMul(2, v))
         IN << <<"PhaseUniform", FLe(FAbs(m(Cos1)), lim) /\ FLe(FAbs(m(Sin1)), lim)
                                 /\ FLe(FAbs(m(Cos2)), lim) /\ FLe(FAbs(m(Sin2)), lim)>>,
               \* (a phase counts modulo a full turn)
               <<"PhaseSpread", LET w == TLCEval([i \in 1..n |-> FMod(e.x[i], FMul(2, PI))]) IN
                    \A k \in 0..23 : \E i \in 1..n : FLe(FDiv(FMul(k, PI), 12), w[i]) /\ FLe(w[i], FDiv(FMul(k + 1, PI), 12))>>,
               \* neighbouring phases do not depend on each other
               <<"PhaseIndependent", FLe(FAbs(FDiv(FSum([i \in 1..(n - 1) |-> FMul(FCos(e.x[i]), FCos(e.x[i + 1]))]), n)), lim)>> >>
      [] OTHER -> << <<"Completes", FALSE>> >>

Init == l = 1
Next == \/ l <= Len(Trace) /\ Judge(l, Clauses(Trace[l])) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done /\ l' = l + 1
===============================================================================
