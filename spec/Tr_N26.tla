-------------------------------- MODULE Tr_N26 --------------------------------
(* Recorded link-level chains against Chain *)
EXTENDS TraceLib, Chain, Pathloss
VARIABLES l, topo, cfg

Sys == cfg.model # "tdl"
NRx == IF Sys THEN Rx(cfg.dir, topo.nu, topo.nb) ELSE 1
NTx == IF Sys THEN Tx(cfg.dir, topo.nu, topo.nb) ELSE 1
Links == [b : 1..topo.b, r : 1..NRx, ra : 1..cfg.nra, t : 1..NTx, ta : 1..cfg.nta]
Of(x, k) == x[k.b][k.r][k.ra][k.t][k.ta]
Tol == IF cfg.prec = "double" THEN "1e-9" ELSE "2e-4"
Size(x) == LET f == FFlatten(x) IN FMax(FMax(FMaxSeq(f), FNeg(FMinSeq(f))), "1e-300")

(* the reply a has n samples for every link of the present topology *)
Layout(a, tau, n) ==
    LET p == Len(tau[1][1][1]) IN
    HasShape(tau, <<topo.b, NRx, NTx, p>>) /\ HasShape(a, <<topo.b, NRx, cfg.nra, NTx, cfg.nta, p, n, 2>>)
(* nothing moves and the satellite causes no Doppler *)
Still(a) == (Sys /\ ~cfg.doppler) =>
    \A k \in Links : \A p \in DOMAIN Of(a, k) : \A t \in DOMAIN Of(a, k)[p] : FNearAll(Of(a, k)[p][t], Of(a, k)[p][1], FMul("1e-6", Size(a)), 0)
(* mean attenuation of the links with line of sight *)
Mean(a) == FDiv(FSum(FFlatten([b \in 1..topo.b |-> [r \in 1..NRx |-> [t \in 1..NTx |->
               LET x == a[b][r][1][t][1] IN [p \in DOMAIN x |-> Power(x[p][1])]]]])), topo.b * NRx * NTx)
Here(a) == Sys => FLe(FAbs(FAdd(FMul(10, FLog10(Mean(a))), FreeSpace(cfg.f, SlantRange(topo.height, cfg.el)))), 15)
Same(e) == Has(e, "a2") => FNearAll(e.a, e.a2, FMul(Tol, Size(e.a)), 0) /\ FNearAll(e.tau, e.tau2, FMul(Tol, Size(e.tau)), 0)
Reply(e, n) == << <<"Layout", Layout(e.a, e.tau, n)>>, <<"SameResponse", Same(e)>>, <<"Still", Still(e.a)>>, <<"PresentTopology", Here(e.a)>> >>

(* frequency response or taps of the reply, before normalization: [link] -> [sample][carrier or tap] *)
Raw(e, n) == TLCEval([k \in Links |-> LET tau == e.tau[k.b][k.r][k.t] IN [t \in 1..n |-> [i \in DOMAIN e.grid |->
                IF e.ev = "ofdm" THEN FreqAt(e.grid[i], Of(e.a, k), tau, t) ELSE TapAt(e.grid[i], e.w, Of(e.a, k), tau, t)]]])
MeanPower(e, raw, b, r, t) ==
    LET S == [ra \in 1..cfg.nra |-> [ta \in 1..cfg.nta |-> LET x == raw[[b |-> b, r |-> r, ra |-> ra, t |-> t, ta |-> ta]] IN
                 [s \in DOMAIN x |-> [i \in DOMAIN x[s] |-> Power(x[s][i])]]]]
        n == cfg.nra * cfg.nta * Len(raw[[b |-> b, r |-> r, ra |-> 1, t |-> t, ta |-> 1]]) * (IF e.ev = "ofdm" THEN Len(e.grid) ELSE 1)
    IN FDiv(FSum(FFlatten(S)), n)
Response(e, n) ==
    LET raw == Raw(e, n)
        g == TLCEval([x \in [b : 1..topo.b, r : 1..NRx, t : 1..NTx] |-> FDiv(1, FSqrt(MeanPower(e, raw, x.b, x.r, x.t)))])
    IN IF ~cfg.norm THEN raw
       ELSE [k \in Links |-> [s \in 1..n |-> [i \in DOMAIN e.grid |-> CScale(g[[b |-> k.b, r |-> k.r, t |-> k.t]], raw[k][s][i])]]]
Used(e, n) == LET x == TLCEval(Response(e, n)) IN \A k \in Links : FNearAll(Of(e.h, k), x[k], FMul(Tol, Size(e.h)), 0)
Asks(e, q) == Len(e.args) = 3 /\ e.args[1] = topo.b /\ Request(e.args).n = q.n /\ FNear(Request(e.args).fs, q.fs, 0, "1e-6")
Heard(e) ==
    \A b \in 1..topo.b, r \in 1..NRx, ra \in 1..cfg.nra :
        LET h == e.h[b][r][ra] y == e.y[b][r][ra]
            s == FMul(Tol, FMul(Size(h), FMul(Size(e.x[b]), NTx * cfg.nta * 4))) IN
        IF e.ev = "ofdm" THEN \A m \in DOMAIN y : FNearAll(y[m], [k \in DOMAIN y[m] |-> HeardOfdm(h, e.x[b], m, k)], s, 0)
        ELSE FNearAll(y, [m \in DOMAIN y |-> HeardTime(h, e.x[b], m)], s, 0)

Clauses(e) ==
    CASE e.ev \in {"begin", "cfg", "topo"} -> <<>>
      [] e.ev = "call" -> IF ~Layout(e.a, e.tau, Request(e.args).n) THEN << <<"Layout", FALSE>> >> ELSE Reply(e, Request(e.args).n)
      [] e.ev \in {"ofdm", "time"} ->
         LET q == IF e.ev = "ofdm" THEN OfdmRequest(e.nsym, e.fft, e.cp, e.spacing) ELSE TimeRequest(Len(e.x[1][1][1]), Len(e.grid), e.w) IN
         IF ~Layout(e.a, e.tau, q.n) THEN << <<"Layout", FALSE>> >>
         ELSE Reply(e, q.n) \o
           << <<"Request", Asks(e, q)>>,
              <<"Shape", HasShape(e.h, <<topo.b, NRx, cfg.nra, NTx, cfg.nta, q.n, Len(e.grid), 2>>)>>,
              <<"Response", Used(e, q.n)>>, <<"Received", Heard(e)>> >>
      [] OTHER -> << <<"Completes", FALSE>> >>

Init == l = 1 /\ topo = [b |-> 0] /\ cfg = [model |-> "none"]
Next == \/ /\ l <= Len(Trace) /\ Judge(l, Clauses(Trace[l])) /\ l' = l + 1
           /\ topo' = IF Trace[l].ev = "topo" THEN Trace[l] ELSE topo
           /\ cfg' = IF Trace[l].ev = "cfg" THEN Trace[l] ELSE cfg
        \/ l = Len(Trace) + 1 /\ Done /\ l' = l + 1 /\ UNCHANGED <<topo, cfg>>
===============================================================================
