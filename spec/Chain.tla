-------------------------------- MODULE Chain ---------------------------------
(***************************************************************************)
(* A channel model inside a link-level chain.  A block of the chain asks   *)
(* the model for the impulse response of the present topology, turns it    *)
(* into a frequency response or taps, and lets every receiver hear all     *)
(* transmitters through their own responses.                               *)
(***************************************************************************)
EXTENDS Conv

(* A request in either form: (samples, rate) or (batch size, samples, rate) *)
Request(args) == IF Len(args) = 3 THEN [n |-> args[2], fs |-> args[3]] ELSE [n |-> args[1], fs |-> args[2]]

(* Who sends and who receives *)
Tx(dir, nu, nb) == IF dir = "uplink" THEN nu ELSE nb
Rx(dir, nu, nb) == IF dir = "uplink" THEN nb ELSE nu

(* What the blocks ask for: one sample per OFDM symbol; all samples of the signal and of its tail *)
OfdmRequest(nsym, fft, cp, spacing) == [n |-> nsym, fs |-> FDiv(FMul(spacing, fft), fft + cp)]
TimeRequest(len, ltot, w) == [n |-> len + ltot - 1, fs |-> w]

(* One receive antenna: responses h[transmitter][antenna][symbol][carrier], symbols x[transmitter][antenna][symbol][carrier] *)
HeardOfdm(h, x, s, k) == CSumAll([t \in DOMAIN h |-> [a \in DOMAIN h[t] |-> CMul(h[t][a][s][k], x[t][a][s][k])]])
(* taps h[transmitter][antenna][sample][tap] from the first tap on, signal x[transmitter][antenna][sample] *)
At0(x, i) == IF i \in DOMAIN x THEN x[i] ELSE <<"0", "0">>
HeardTime(h, x, i) == CSumAll([t \in DOMAIN h |-> [a \in DOMAIN h[t] |->
                           CSum([l \in DOMAIN h[t][a][i] |-> CMul(h[t][a][i][l], At0(x[t][a], i - l + 1))])]])
===============================================================================
