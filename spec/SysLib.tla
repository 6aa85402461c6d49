-------------------------------- MODULE SysLib --------------------------------
(***************************************************************************)
(* Recorded realisations of a whole channel model ("sys" events): inputs   *)
(* of the topology, LoS states, rays and large-scale parameters per BS and *)
(* UT, initial phases per transmitter and receiver, and the two outputs.   *)
(***************************************************************************)
EXTENDS CirLib, Pathloss

Up(e) == e.cfg.dir = "uplink"
SysB(e) == Len(e.ut)
SysNB(e) == Len(e.bs[1])
SysNU(e) == Len(e.ut[1])
SysLinks(e) == (1..SysB(e)) \X (1..SysNB(e)) \X (1..SysNU(e))
TxOf(e, k) == IF Up(e) THEN k[3] ELSE k[2]
RxOf(e, k) == IF Up(e) THEN k[2] ELSE k[3]
Hz(e) == e.hz
Height(e, k) == e.bs[k[1]][k[2]][3]
Slant(e, k) == SlantRange(Height(e, k), e.cfg.el)

(* The link between BS k[2] and UT k[3] of batch example k[1].  In uplink   *)
(* arrival and departure are exchanged.                                     *)
SysLink(e, k) ==
    LET b == k[1] n == k[2] u == k[3]
        bsl == e.bs[b][n] utl == e.ut[b][u]
        R(name) == e.rays[name][b][n][u]
    IN [tx |-> IF Up(e) THEN e.uta ELSE e.bsa, rx |-> IF Up(e) THEN e.bsa ELSE e.uta,
        txo |-> IF Up(e) THEN e.uo[b][u] ELSE e.bo[b][n], rxo |-> IF Up(e) THEN e.bo[b][n] ELSE e.uo[b][u],
        lam |-> FDiv(C0, Hz(e)), vel |-> e.vel[b][u], moving |-> IF Up(e) THEN "tx" ELSE "rx",
        rot |-> FaradayAngle(bsl[3], Hz(e)),
        los |-> e.los[b][n][u], k |-> e.k[b][n][u], d3 |-> Slant(e, k),
        la |-> Rad(IF Up(e) THEN Aod(bsl, utl) ELSE Aoa(bsl, utl)),
        ld |-> Rad(IF Up(e) THEN Aoa(bsl, utl) ELSE Aod(bsl, utl)),
        lza |-> Rad(IF Up(e) THEN Zod(bsl, utl) ELSE Zoa(bsl, utl)),
        lzd |-> Rad(IF Up(e) THEN Zoa(bsl, utl) ELSE Zod(bsl, utl)),
        P |-> R("powers"), T |-> R("delays"),
        aoa |-> IF Up(e) THEN R("aod") ELSE R("aoa"), aod |-> IF Up(e) THEN R("aoa") ELSE R("aod"),
        zoa |-> IF Up(e) THEN R("zod") ELSE R("zoa"), zod |-> IF Up(e) THEN R("zoa") ELSE R("zod"),
        xpr |-> R("xpr"), phi |-> e.phi[b][TxOf(e, k)][RxOf(e, k)],
        cds |-> FMul(Par(e.cfg, e.los[b][n][u], "cDS"), "1e-9")]

SysPaths(e) == NumClustersMax(e.cfg) + 4
SysShape(e) ==
    LET NTX == IF Up(e) THEN SysNU(e) ELSE SysNB(e) NRX == IF Up(e) THEN SysNB(e) ELSE SysNU(e)
        txa == IF Up(e) THEN e.uta ELSE e.bsa rxa == IF Up(e) THEN e.bsa ELSE e.uta
    IN /\ HasShape(e.a, <<SysB(e), NRX, NAnt(rxa), NTX, NAnt(txa), SysPaths(e), e.nt>>)
       /\ HasShape(e.tau, <<SysB(e), NRX, NTX, SysPaths(e)>>)

(* Output of the link as [path][rx element][tx element][time], and its delays *)
OutCoef(e, k) ==
    LET x == e.a[k[1]][RxOf(e, k)]
    IN [p \in 1..SysPaths(e) |-> [u \in 1..Len(x) |-> [s \in 1..Len(x[1][TxOf(e, k)]) |-> x[u][TxOf(e, k)][s][p]]]]
OutDelay(e, k) == e.tau[k[1]][RxOf(e, k)][TxOf(e, k)]

(* Attenuation *)
Total(e, k) == LET P(c) == e.pl[c][k[1]][k[2]][k[3]] IN FSum(<<P("b"), P("g"), P("s"), P("e")>>)
Gain(e, k) ==
    FMul(IF e.plon THEN FPow(10, FDiv(FNeg(Total(e, k)), 20)) ELSE 1,
         IF e.sfon THEN FSqrt(e.sf[k[1]][k[2]][k[3]]) ELSE 1)
ScaleAll(H, g) ==
    [p \in 1..Len(H) |-> [u \in 1..Len(H[p]) |-> [s \in 1..Len(H[p][u]) |-> [i \in 1..Len(H[p][u][s]) |-> CScale(g, H[p][u][s][i])]]]]

(* Common rate of an observed time series against a prediction *)
CConj(a) == <<F(a[1]), FNeg(a[2])>>
RateOf(H, E, fs) ==
    LET w(i) == CSumAll([p \in 1..Len(H) |-> [u \in 1..Len(H[p]) |-> [s \in 1..Len(H[p][u]) |->
                    CMul(H[p][u][s][i], CConj(E[p][u][s][i]))]]])
        r == CMul(w(2), CConj(w(1)))
    IN FMul(FAtan2(r[2], r[1]), fs)
SatDoppler(e, k) == e.dop /\ FLe(SatHeight, Height(e, k))

(* The link's output is the specified one, up to the common rotation of satellite links *)
SysCoefOk(e, k) ==
    LET L == SysLink(e, k)
        T == SampleTimes(e.nt, e.fs)
        g == Gain(e, k)
        E == TLCEval(ScaleAll(Coef(L, T), g))
        H == TLCEval(OutCoef(e, k))
        w == IF SatDoppler(e, k) /\ e.nt > 1 THEN RateOf(H, E, e.fs) ELSE F(0)
    IN /\ FNearAll(H, IF SatDoppler(e, k) THEN Rotate(E, w, T) ELSE E, FMul(g, FMul(30, PhaseTol(L))), "1e-6")
       /\ FLe(FAbs(w), FAdd(FMul(SatRate(Height(e, k), e.cfg.el, L.lam), "1.000001"), FMul("1e-5", e.fs)))
SysRate(e, k) ==
    LET L == SysLink(e, k)
    IN RateOf(OutCoef(e, k), ScaleAll(Coef(L, SampleTimes(e.nt, e.fs)), Gain(e, k)), e.fs)
===============================================================================
