-------------------------------- MODULE Tr_N04 --------------------------------
(* Recorded statistical parameters of links against the tables *)
EXTENDS TraceLib, Lsp
VARIABLE l

ParamClauses(e) ==
    LET B == Len(e.los) NB == Len(e.los[1]) NU == Len(e.los[1][1])
        Lnk == (1..B) \X (1..NB) \X (1..NU)
        shp == <<B, NB, NU>>
        At(x, k) == x[k[1]][k[2]][k[3]]
        rel == IF e.prec = "double" THEN "1e-12" ELSE "2e-7"
        names == DOMAIN e.par
        Ok(name) == HasShape(e.par[name], shp) /\
                    \A k \in Lnk : FNear(At(e.par[name], k), Par(e, At(e.los, k), name), 0, rel)
        MeanOk(i) == \A k \in Lnk : FNear(At(e.mean, k)[i], LspMean(e, At(e.los, k), i), "1e-9", "3e-7")
        StdOk(i) == \A k \in Lnk : FNear(At(e.std, k)[i], LspStd(e, At(e.los, k), i), "1e-9", "3e-7")
    IN [i \in 1..Len(e.names) |-> <<"Parameter:" \o e.names[i], Ok(e.names[i])>>]
       \o IF ~(HasShape(e.mean, shp \o <<7>>) /\ HasShape(e.std, shp \o <<7>>) /\ HasShape(e.p, shp) /\ HasShape(e.zodoff, shp))
          THEN << <<"Shape", FALSE>> >>
          ELSE [i \in 1..7 |-> <<"Mean:" \o LspNames[i], MeanOk(i)>>]
               \o [i \in 1..7 |-> <<"Deviation:" \o LspNames[i], StdOk(i)>>]
               \o << <<"LosProbability", \A k \in Lnk : FNear(At(e.p, k), Par(e, TRUE, "LoS_p"), 0, rel)>>,
                     <<"ZodOffset", \A k \in Lnk : FNear(At(e.zodoff, k),
                          IF At(e.los, k) THEN 0 ELSE FSub(FAtan(FDiv("31.5", At(e.d2, k))), FAtan(FDiv("33.5", At(e.d2, k)))),
                          "1e-5", 0)>>,
                     <<"NumClusters", e.ncl = NumClusters(e, TRUE) /\ e.ncn = NumClusters(e, FALSE)
                                      /\ e.ncm = NumClustersMax(e)>>,
                     <<"LosMask", \A k \in Lnk : At(e.los, k) => ~e.indoor[k[1]][k[3]]>> >>

(* lsp: drawn large-scale parameters; a parameter with vanishing mean is 0, one with zero *)
(* deviation has exactly its mean, all lie within 8 deviations and below their cap        *)
LspClauses(e) ==
    LET B == Len(e.los) NB == Len(e.los[1]) NU == Len(e.los[1][1])
        Lnk == (1..B) \X (1..NB) \X (1..NU)
        At(x, k) == x[k[1]][k[2]][k[3]]
        Bound(k, i, s) == FPow(10, FAdd(LspMean(e, At(e.los, k), i), FMul(s, LspStd(e, At(e.los, k), i))))
        Ok(k, i) == LET v == At(e.lsp[i], k) IN
            IF Vanishing(LspMean(e, At(e.los, k), i)) THEN FEq(v, 0)
            ELSE /\ FLe(FMin(FMul("0.9999", Bound(k, i, -8)), Cap(i)), v)
                 /\ FLe(v, FMul("1.0001", FMin(Cap(i), Bound(k, i, 8))))
    IN [i \in 1..7 |-> <<"Drawn:" \o LspNames[i],
            HasShape(e.lsp[i], <<B, NB, NU>>) /\ \A k \in Lnk : Ok(k, i)>>]

Clauses(e) ==
    CASE e.ev = "begin" -> <<>>
      [] e.ev = "params" -> ParamClauses(e)
      [] e.ev = "lsp" -> LspClauses(e)
      [] OTHER -> << <<"Completes", FALSE>> >>

Init == l = 1
Next == \/ l <= Len(Trace) /\ Judge(l, Clauses(Trace[l])) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done /\ l' = l + 1
===============================================================================
