-------------------------------- MODULE CirLib --------------------------------
(***************************************************************************)
(* Recorded calls of the channel coefficient generator ("cir" events) and  *)
(* of whole channel models ("sys" events), as links of Coefficients.       *)
(***************************************************************************)
EXTENDS TraceLib, Coefficients

(* "cir": tensors indexed batch, TX, RX; hb batch, BS *)
BsOf(e, i, j) == IF e.moving = "rx" THEN i ELSE j
UtOf(e, i, j) == IF e.moving = "rx" THEN j ELSE i
Opt(x, b, i, j) == IF FIsNull(x) THEN "null" ELSE x[b][i][j]
CirLink(e, b, i, j) ==
    [tx |-> e.txa, rx |-> e.rxa, txo |-> e.topo.tx_orientations[b][i], rxo |-> e.topo.rx_orientations[b][j],
     lam |-> FDiv(C0, e.f), vel |-> e.topo.velocities[b][UtOf(e, i, j)], moving |-> e.moving,
     rot |-> FaradayAngle(e.hb[b][BsOf(e, i, j)], e.f),
     los |-> e.topo.los[b][i][j], k |-> e.k[b][i][j], d3 |-> e.topo.distance_3d[b][i][j],
     la |-> e.topo.los_aoa[b][i][j], ld |-> e.topo.los_aod[b][i][j],
     lza |-> e.topo.los_zoa[b][i][j], lzd |-> e.topo.los_zod[b][i][j],
     P |-> e.rays.powers[b][i][j], T |-> e.rays.delays[b][i][j],
     aoa |-> e.rays.aoa[b][i][j], aod |-> e.rays.aod[b][i][j],
     zoa |-> e.rays.zoa[b][i][j], zod |-> e.rays.zod[b][i][j],
     xpr |-> e.rays.xpr[b][i][j], phi |-> e.phi[b][i][j], cds |-> Opt(e.cds, b, i, j)]
CirLinks(e) == (1..Len(e.topo.los)) \X (1..Len(e.topo.los[1])) \X (1..Len(e.topo.los[1][1]))

(* Time of sample i (counted from 1) *)
SampleTimes(nt, fs) == [i \in 1..nt |-> FDiv(i - 1, fs)]
NPaths(e) == Len(e.rays.powers[1][1][1]) + (IF FIsNull(e.cds) THEN 0 ELSE 4)
CirShape(e) ==
    LET B == Len(e.topo.los) NTX == Len(e.topo.los[1]) NRX == Len(e.topo.los[1][1])
    IN /\ HasShape(e.h, <<B, NTX, NRX, NPaths(e), NAnt(e.rxa), NAnt(e.txa), e.nt>>)
       /\ HasShape(e.delays, <<B, NTX, NRX, NPaths(e)>>)
       /\ HasShape(e.t, <<e.nt>>)

(* Tolerance: the phase of a specular path counts slant range in wavelengths *)
PhaseTol(L) == FAdd("1e-7", FMul("4e-15", FDiv(L.d3, L.lam)))

(* The coefficients up to a common rotation at rate w over time *)
Rotate(H, w, times) ==
    [p \in 1..Len(H) |-> [u \in 1..Len(H[p]) |-> [s \in 1..Len(H[p][u]) |-> [i \in 1..Len(times) |->
        CMul(H[p][u][s][i], CExpI(FMul(w, times[i])))]]]]

CoefOk(e, k, tol(_)) ==
    LET L == CirLink(e, k[1], k[2], k[3])
    IN FNearAll(e.h[k[1]][k[2]][k[3]], Coef(L, SampleTimes(e.nt, e.fs)), tol(L), "1e-7")
DelayOk(e, k, abs, rel) ==
    FNearAll(e.delays[k[1]][k[2]][k[3]], Delays(CirLink(e, k[1], k[2], k[3])), abs, rel)
===============================================================================
