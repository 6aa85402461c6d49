-------------------------------- MODULE Tr_N20 --------------------------------
(* Recorded conversions against Conv *)
EXTENDS TraceLib, Conv
VARIABLE l

Dbl(e) == e.prec = "double"
Idx(e) == [b : 1..e.dim[1], r : 1..e.dim[2], ra : 1..e.dim[3], t : 1..e.dim[4], ta : 1..e.dim[5]]
A(e, k) == e.a[k.b][k.r][k.ra][k.t][k.ta]                    \* [path][time]
Tau(e, k) == IF e.tau6 THEN e.tau[k.b][k.r][k.ra][k.t][k.ta] ELSE e.tau[k.b][k.r][k.t]
Out(e, k) == e.out[k.b][k.r][k.ra][k.t][k.ta]                \* [time][last]
NT(e) == e.dim[7]
(* expected, before normalization *)
Raw(e) == TLCEval([k \in Idx(e) |-> [t \in 1..NT(e) |-> [i \in DOMAIN e.x |->
             IF e.ev = "freq" THEN FreqAt(e.x[i], A(e, k), Tau(e, k), t) ELSE TapAt(e.x[i], e.w, A(e, k), Tau(e, k), t)]]])
(* mean power of a link: over antennas and time; over frequencies, or in total over taps *)
LinkPower(e, raw, b, r, t) ==
    LET S == TLCEval([ra \in 1..e.dim[3] |-> [ta \in 1..e.dim[5] |->
                 FSum(FFlatten([s \in 1..NT(e) |-> [i \in DOMAIN e.x |-> Power(raw[[b |-> b, r |-> r, ra |-> ra, t |-> t, ta |-> ta]][s][i])]]))]])
        n == e.dim[3] * e.dim[5] * NT(e) * (IF e.ev = "freq" THEN Len(e.x) ELSE 1)
    IN FDiv(FSum(FFlatten(S)), n)
Expected(e) ==
    LET raw == Raw(e)
        P == TLCEval([k \in [b : 1..e.dim[1], r : 1..e.dim[2], t : 1..e.dim[4]] |-> LinkPower(e, raw, k.b, k.r, k.t)])
    IN IF ~e.norm THEN raw
       ELSE [k \in Idx(e) |-> LET p == P[[b |-> k.b, r |-> k.r, t |-> k.t]] g == IF FEq(p, 0) THEN 0 ELSE FDiv(1, FSqrt(p)) IN
              [t \in 1..NT(e) |-> [i \in DOMAIN e.x |-> CScale(g, raw[k][t][i])]]]
Tol(e) == IF Dbl(e) THEN "1e-9" ELSE "5e-4"
ConvOk(e) == LET x == TLCEval(Expected(e)) IN \A k \in Idx(e) : FNearAll(Out(e, k), x[k], Tol(e), 0)
Typed(e) == e.type = IF Dbl(e) THEN "complex128" ELSE "complex64"
CeilOk(x, v) == LET y == FSub(v, 6) d == FMul("1e-6", FMax(1, y)) IN FLe(FSub(x, d), y) /\ FLt(FSub(y, 1), FAdd(x, d))

Clauses(e) ==
    CASE e.ev = "begin" -> <<>>
      [] e.ev \in {"freq", "taps"} ->
         << <<"Shape", HasShape(e.out, <<e.dim[1], e.dim[2], e.dim[3], e.dim[4], e.dim[5], e.dim[7], Len(e.x)>>)>>,
            <<IF e.ev = "freq" THEN "FrequencyResponse" ELSE "Taps", ConvOk(e)>>,
            <<"Type", Typed(e)>> >>
      [] e.ev = "ofdm" ->      \* taps h[time][tap] -> out[symbol][subcarrier]
         LET ns == NumSymbols(e.nts, e.fft, e.cp) IN
         << <<"Shape", HasShape(e.out, <<ns, e.fft>>)>>,
            <<"OfdmResponse", \A k \in 1..ns : FNearAll(e.out[k],
                 [i \in 1..e.fft |-> TapsToFreq(e.h[SymbolStart(k - 1, e.fft, e.cp) + 1], e.lmin, Centred(e.fft)[i], e.fft)], Tol(e), 0)>>,
            <<"Type", Typed(e)>> >>
      [] e.ev = "ranges" ->
         LET C == Centred(e.n) r == IF Dbl(e) THEN "1e-13" ELSE "1e-6" IN
         << <<"SubcarrierFrequencies", HasShape(e.freq, <<e.n>>) /\ FNearAll(e.freq, [i \in 1..e.n |-> FMul(C[i], e.spacing)], 0, r)>>,
            <<"TimeVector", HasShape(e.t, <<e.m>>) /\ FNearAll(e.t, [i \in 1..e.m |-> FMul(Centred(e.m)[i], e.dur)], 0, r)>>,
            <<"FrequencyVector", HasShape(e.f, <<e.m>>) /\ FNearAll(e.f, [i \in 1..e.m |-> FDiv(FDiv(Centred(e.m)[i], e.dur), e.m)], 0, r)>>,
            <<"TimeLags", e.lmin = -6 /\ CeilOk(FMul(e.tmax, e.w), e.lmax)>>,
            <<"DefaultLag", e.lmin0 = -6 /\ CeilOk(FMul("3e-6", e.w), e.lmax0)>>,
            <<"Type", \A i \in DOMAIN e.types : e.types[i] = IF Dbl(e) THEN "float64" ELSE "float32">> >>
      [] OTHER -> << <<"Completes", FALSE>> >>

Init == l = 1
Next == \/ l <= Len(Trace) /\ Judge(l, Clauses(Trace[l])) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done /\ l' = l + 1
===============================================================================
