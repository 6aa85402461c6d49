-------------------------------- MODULE Tr_N07 --------------------------------
(* Recorded pathloss components of the scenarios against Pathloss *)
EXTENDS TraceLib, Pathloss
VARIABLE l

(* pl: components for one topology.  Every component is a tensor over links. *)
PlClauses(e) ==
    LET B == Len(e.los) NB == Len(e.los[1]) NU == Len(e.los[1][1])
        Lnk == (1..B) \X (1..NB) \X (1..NU)
        shp == <<B, NB, NU>>
        tol == IF e.prec = "double" THEN "1e-7" ELSE "2e-3"
        rel == IF e.prec = "double" THEN "1e-8" ELSE "2e-4"
        sane == \A x \in {e.d3, e.fspl, e.basic, e.gas, e.scint, e.entry, e.total} : HasShape(x, shp)
        At(x, k) == x[k[1]][k[2]][k[3]]
        gas == TLCEval(GasLoss(e.f, e.el, e.env))
        cl == [s \in BOOLEAN |-> Clutter(e, s)]
        det(k) == FAdd(FreeSpace(e.f, At(e.d3, k)), cl[At(e.los, k)])
    IN IF ~sane THEN << <<"Shape", FALSE>> >>
       ELSE << <<"SlantRangeOfLink", \A k \in Lnk : FNear(At(e.d3, k), SlantRange(e.bs[k[1]][k[2]][3], e.el), 3, "1e-6")>>,
               <<"FreeSpace", \A k \in Lnk : FNear(At(e.fspl, k), FreeSpace(e.f, At(e.d3, k)), tol, 0)>>,
               <<"Gas", \A k \in Lnk : FNear(At(e.gas, k), gas, "1e-6", rel)>>,
               <<"Scintillation", \A k \in Lnk : ScintOk(At(e.scint, k), e.f, e.el, e.env, rel, IF e.prec = "double" THEN "1e-12" ELSE "1e-5")>>,
               <<"Entry", \A k \in Lnk : FEq(At(e.entry, k), EntryLoss)>>,
               <<"BasicNoShadowing", e.sf \/ \A k \in Lnk : FNear(At(e.basic, k), det(k), tol, 0)>>,
               <<"BasicShadowing", ~e.sf \/ \A k \in Lnk :
                    FLe(FAbs(FSub(At(e.basic, k), det(k))), FMul(8, ShadowStd(e, At(e.los, k))))>>,
               <<"Total", \A k \in Lnk : FNear(At(e.total, k),
                    FSum(<<At(e.basic, k), At(e.gas, k), At(e.scint, k), At(e.entry, k)>>), tol, 0)>> >>

(* shadow: basic losses of many links, all in state e.los *)
ShadowClauses(e) ==
    LET n == Len(e.basic)
        m == FAdd(FreeSpace(e.f, e.d3), Clutter(e, e.los))
        z == TLCEval([i \in 1..n |-> FDiv(FSub(e.basic[i], m), ShadowStd(e, e.los))])
        mean == FDiv(FSum(z), n)
        m2 == FDiv(FDot(z, z), n)
        z2 == TLCEval([i \in 1..n |-> FSqr(z[i])])
        m4 == FDiv(FDot(z2, z2), n)
        \* lag-one correlation: links are shadowed independently
        lag == FDiv(FSum([i \in 1..(n - 1) |-> FMul(z[i], z[i + 1])]), n)
        bound(v) == FMul("5.5", FSqrt(FDiv(v, n)))
    IN << <<"ShadowMean", FLe(FAbs(mean), bound(1))>>,
          <<"ShadowDeviation", FLe(FAbs(FSub(m2, 1)), bound(2))>>,
          <<"ShadowNormal", FLe(FAbs(FSub(m4, 3)), bound(96))>>,
          <<"ShadowIndependent", FLe(FAbs(lag), bound(1))>> >>

Clauses(e) ==
    CASE e.ev = "begin" -> <<>>
      [] e.ev = "pl" -> PlClauses(e)
      [] e.ev = "shadow" -> ShadowClauses(e)
      [] OTHER -> << <<"Completes", FALSE>> >>

Init == l = 1
Next == \/ l <= Len(Trace) /\ Judge(l, Clauses(Trace[l])) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done /\ l' = l + 1
===============================================================================
