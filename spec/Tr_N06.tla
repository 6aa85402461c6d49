-------------------------------- MODULE Tr_N06 --------------------------------
(* Recorded geometry of the scenarios against Geometry *)
EXTENDS TraceLib, Geometry
VARIABLE l

Clauses(e) ==
    IF e.ev # "geo" THEN << <<"Completes", e.ev = "begin">> >>
    ELSE
    LET B == Len(e.ut) NU == Len(e.ut[1]) NB == Len(e.bs[1])
        Lnk == (1..B) \X (1..NB) \X (1..NU)
        shp == <<B, NB, NU>>
        dbl == e.prec = "double"
        relD == IF dbl THEN "1e-12" ELSE "1e-6"      \* distances
        absA == IF dbl THEN "1e-9" ELSE "1e-3"       \* angles [deg]
        eps == IF dbl THEN "2.3e-16" ELSE "1.2e-7"
        absS == IF dbl THEN "1e-5" ELSE 3            \* slant range [m]
        sane == /\ HasShape(e.d2, shp) /\ HasShape(e.d3, shp) /\ HasShape(e.aod, shp)
                /\ HasShape(e.aoa, shp) /\ HasShape(e.zod, shp) /\ HasShape(e.zoa, shp)
                /\ HasShape(e.dut, <<B, NU, NU>>)
        On(P(_, _, _, _)) == \A k \in Lnk : P(e.bs[k[1]][k[2]], e.ut[k[1]][k[3]], k, e)
        Dist2(b, u, k, x) == FNear(x.d2[k[1]][k[2]][k[3]], Dist2D(b, u), "1e-3", relD)
        Slant(b, u, k, x) == FNear(x.d3[k[1]][k[2]][k[3]], SlantRange(b[3], x.el), absS, IF dbl THEN "1e-11" ELSE "1e-6")
        AodOk(b, u, k, x) == FLe(AngDist(x.aod[k[1]][k[2]][k[3]], Aod(b, u)), absA)
        AoaOk(b, u, k, x) == FLe(AngDist(x.aoa[k[1]][k[2]][k[3]], Aoa(b, u)), absA)
        ZodOk(b, u, k, x) == FNear(x.zod[k[1]][k[2]][k[3]], Zod(b, u), FAdd(absA, ZenithTol(b, u, eps)), 0)
        ZoaOk(b, u, k, x) == FNear(x.zoa[k[1]][k[2]][k[3]], Zoa(b, u), FAdd(absA, ZenithTol(b, u, eps)), 0)
        Rng(b, u, k, x) == /\ \A a \in {x.aod[k[1]][k[2]][k[3]], x.aoa[k[1]][k[2]][k[3]]} : FLe(0, a) /\ FLe(a, 360)
                           /\ \A z \in {x.zod[k[1]][k[2]][k[3]], x.zoa[k[1]][k[2]][k[3]]} : FLe(0, z) /\ FLe(z, 180)
        DUt == \A b \in 1..B : \A i, j \in 1..NU :
                  FNear(e.dut[b][i][j], Dist2D(e.ut[b][i], e.ut[b][j]), "1e-3", relD)
        (* indoor parts of the links *)
        Ind == {k \in Lnk : e.ind[k[1]][k[3]]}
        At(f, k) == f[k[1]][k[2]][k[3]]
        In2 == \A k \in Lnk : IF k \in Ind THEN FLe(0, At(e.d2in, k)) /\ FLe(At(e.d2in, k), 10) ELSE FEq(At(e.d2in, k), 0)
        InUT == dbl => \A i, j \in Ind : <<i[1], i[3]>> # <<j[1], j[3]>> => ~FEq(At(e.d2in, i), At(e.d2in, j))
        In3 == \A k \in Lnk : FNear(At(e.d3in, k), FMul(FDiv(At(e.d2in, k), At(e.d2, k)), At(e.d3, k)), "1e-3", FMul(4, relD))
        Out == \A k \in Lnk : /\ FNear(At(e.d2out, k), FSub(At(e.d2, k), At(e.d2in, k)), FMul(relD, FAdd(10, At(e.d2, k))), relD)
                               /\ FNear(At(e.d3out, k), FSub(At(e.d3, k), At(e.d3in, k)), FMul(FMul(2, relD), FAdd(At(e.d3, k), At(e.d3in, k))), relD)
        InShape == \A x \in {"d2in", "d2out", "d3in", "d3out"} : HasShape(e[x], shp)
        Cor == /\ HasShape(e.cor, <<B, NU, NU>>)
               /\ \A b \in 1..B : \A i, j \in 1..NU :
                    FNear(e.cor[b][i][j], FExp(FNeg(FDiv(Dist2D(e.ut[b][i], e.ut[b][j]), e.cd))), IF dbl THEN "1e-9" ELSE "1e-4", 0)
    IN IF ~sane THEN << <<"Shape", FALSE>> >>
       ELSE << <<"Distance2D", On(Dist2)>>, <<"SlantRange", On(Slant)>>,
               <<"AzimuthDeparture", On(AodOk)>>, <<"AzimuthArrival", On(AoaOk)>>,
               <<"ZenithDeparture", On(ZodOk)>>, <<"ZenithArrival", On(ZoaOk)>>,
               <<"AngleRanges", On(Rng)>>, <<"DistanceUTs", DUt>>, <<"IndoorShape", InShape>>, <<"IndoorDistance", In2>>,
               <<"IndoorPerUT", InUT>>, <<"IndoorSlant", In3>>, <<"OutdoorParts", Out>>, <<"SpatialCorrelation", Cor>> >>

Init == l = 1
Next == \/ l <= Len(Trace) /\ Judge(l, Clauses(Trace[l])) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done /\ l' = l + 1
===============================================================================
