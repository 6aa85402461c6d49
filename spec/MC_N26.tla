-------------------------------- MODULE MC_N26 --------------------------------
(***************************************************************************)
(* A link-level chain as a machine: topologies come and go, blocks and     *)
(* clients ask the channel model in either form; every reply belongs to    *)
(* the topology in force and has the samples asked for.  Theorems: both    *)
(* forms are one request; transmitters superpose; an OFDM signal sent over *)
(* a time-domain channel without interference between symbols is heard as  *)
(* through the frequency response.  Gen: histories of use.                 *)
(***************************************************************************)
EXTENDS Chain, Json, TLC
CONSTANTS Depth
VARIABLES topo, asked, got
vars == <<topo, asked, got>>

Topos == [v : 1..2, b : 1..2, nu : 1..2, nb : 1..2]
Forms == {<<3, "7">>, <<2, 3, "7">>}
Init == topo = [v |-> 0] /\ asked = <<>> /\ got = <<>>
Update == \E t \in Topos : topo' = t /\ UNCHANGED <<asked, got>>
Reply(t, dir, r) == [of |-> t, dims |-> <<t.b, Rx(dir, t.nu, t.nb), Tx(dir, t.nu, t.nb), r.n>>, fs |-> r.fs]
Ask == /\ topo.v > 0
       /\ \E a \in Forms, dir \in {"uplink", "downlink"} :
            /\ asked' = Append(asked, [args |-> a, of |-> topo, dir |-> dir])
            /\ got' = Append(got, Reply(topo, dir, Request(a)))
       /\ UNCHANGED topo
Next == Update \/ Ask
Spec == Init /\ [][Next]_vars
Small == Len(got) <= Depth
Matches == \A i \in DOMAIN got :
    /\ got[i].of = asked[i].of /\ got[i].dims[4] = 3 /\ got[i].fs = "7"
    /\ \A j \in DOMAIN got : asked[i].of = asked[j].of /\ asked[i].dir = asked[j].dir => got[i] = got[j]
    /\ got[i].dims[2] = IF asked[i].dir = "uplink" THEN asked[i].of.nb ELSE asked[i].of.nu
Kept == [][\A i \in DOMAIN got : got'[i] = got[i]]_vars

-------------------------------------------------------------------------------
(* theorems; topo holds an OFDM link with a static two-path channel of delays d in samples *)
LinkInit == topo \in [fft : 1..4, cp : 0..3, sym : 1..2, d : 0..3] /\ asked = <<>> /\ got = <<>>
Stop == FALSE /\ UNCHANGED vars
Gains == <<<<"0.8", "-0.3">>, <<"-0.2", "0.5">>>>
Symb(s, k) == <<FAdd(s, FMul("0.25", k)), FSub(k, FMul("0.5", s))>>
X == [s \in 1..topo.sym |-> [k \in 1..topo.fft |-> Symb(s, k)]]
Sub == Centred(topo.fft)
(* samples of symbol s, its prefix first *)
Signal == [m \in 1..(topo.sym * (topo.fft + topo.cp)) |->
             LET s == ((m - 1) \div (topo.fft + topo.cp)) + 1
                 i == ((m - 1) % (topo.fft + topo.cp)) - topo.cp
             IN CScale(FDiv(1, topo.fft), CSum([k \in 1..topo.fft |-> CMul(X[s][k], CExpI(FMul(TwoPi, FDiv(Sub[k] * i, topo.fft))))]))]
Taps == [l \in 1..4 |-> CSum(<<IF l = 1 THEN Gains[1] ELSE <<"0", "0">>, IF l = topo.d + 1 THEN Gains[2] ELSE <<"0", "0">>>>)]
Rec == [m \in 1..Len(Signal) |-> HeardTime(<<<<[i \in 1..Len(Signal) |-> Taps]>>>>, <<<<Signal>>>>, m)]
Demod(s, k) == CSum([i \in 1..topo.fft |-> CMul(Rec[SymbolStart(s - 1, topo.fft, topo.cp) + i],
                                               CExpI(FNeg(FMul(TwoPi, FDiv(Sub[k] * (i - 1), topo.fft)))))])
H == [s \in 1..topo.sym |-> [k \in 1..topo.fft |-> FreqAt(Sub[k], <<<<Gains[1]>>, <<Gains[2]>>>>, <<0, FDiv(topo.d, topo.fft)>>, 1)]]
OfdmHeard == topo.d <= topo.cp => \A s \in 1..topo.sym : \A k \in 1..topo.fft :
    LET a == Demod(s, k) b == HeardOfdm(<<<<H>>>>, <<<<X>>>>, s, k) IN FNear(a[1], b[1], "1e-9", 0) /\ FNear(a[2], b[2], "1e-9", 0)
Superpose == \A s \in 1..topo.sym : \A k \in 1..topo.fft :
    LET a == HeardOfdm(<<<<H>>, <<H>>>>, <<<<X>>, <<X>>>>, s, k) b == HeardOfdm(<<<<H>>>>, <<<<X>>>>, s, k)
    IN FNear(a[1], FMul(2, b[1]), "1e-12", 0) /\ FNear(a[2], FMul(2, b[2]), "1e-12", 0)
OneRequest == Request(<<3, topo.fft, "2">>) = Request(<<topo.fft, "2">>)

-------------------------------------------------------------------------------
(* configurations; and histories of use, each seeing at least two topologies *)
Ops == {"two", "three", "ofdm", "time", "update"}
Configs == [model : {"dur", "urb", "sur", "tdl"}, dir : {"uplink", "downlink"}, mode : {"eager", "compiled", "xla"}, prec : {"single", "double"},
            nb : 1..2, nu : 1..2, dual : BOOLEAN, doppler : BOOLEAN, norm : BOOLEAN]
Histories == {h \in [1..5 -> Ops] : h[1] # "update" /\ h[5] # "update" /\ \E i \in 2..4 : h[i] = "update" /\ h[i + 1] # "update"}
GenInit == /\ topo \in {[cfg |-> c] : c \in Configs} \cup {[ops |-> h] : h \in Histories}
           /\ asked = <<>> /\ got = <<>> /\ PrintT("CASE " \o ToJson(topo))
===============================================================================
