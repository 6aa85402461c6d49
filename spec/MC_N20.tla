-------------------------------- MODULE MC_N20 --------------------------------
(***************************************************************************)
(* A receiver as a machine: it walks over the time samples of a block of   *)
(* OFDM symbols and marks the sample behind each cyclic prefix; the marks  *)
(* must be the SymbolStart's.  Theorems: centred ranges, sinc taps of      *)
(* integer delays, and that both ways from the impulse response to the     *)
(* frequency response agree where they are defined.  Gen: configurations.  *)
(***************************************************************************)
EXTENDS Conv, Json, TLC, FiniteSets
CONSTANTS Quick
VARIABLES c, n, incp, left, marks

Sizes == IF Quick THEN 1..5 ELSE 1..9
Init == /\ c \in [fft : Sizes, cp : 0..3, sym : 1..3] /\ n = 0 /\ marks = <<>>
        /\ incp = (c.cp > 0) /\ left = IF c.cp > 0 THEN c.cp ELSE c.fft
Total == c.sym * (c.fft + c.cp)
(* one sample: in the prefix, or in the symbol; the first sample of the symbol is marked *)
Step == /\ n < Total
        /\ marks' = IF ~incp /\ left = c.fft THEN Append(marks, n) ELSE marks
        /\ n' = n + 1
        /\ IF left > 1 THEN left' = left - 1 /\ UNCHANGED incp
           ELSE IF incp THEN incp' = FALSE /\ left' = c.fft
           ELSE incp' = (c.cp > 0) /\ left' = IF c.cp > 0 THEN c.cp ELSE c.fft
        /\ UNCHANGED c
Next == Step
MarksRight == \A k \in DOMAIN marks : marks[k] = SymbolStart(k - 1, c.fft, c.cp)
AllMarked == n = Total => Len(marks) = c.sym /\ c.sym = NumSymbols(Total, c.fft, c.cp)

RangeOk == LET r == Centred(c.fft) IN
    /\ Len(r) = c.fft /\ \E i \in DOMAIN r : r[i] = 0
    /\ \A i \in 1..(c.fft - 1) : r[i + 1] = r[i] + 1
    /\ IF c.fft % 2 = 0 THEN r[1] = -(c.fft \div 2) ELSE r[1] = -r[c.fft]
(* Delays on the grid of 1/W within the taps: the taps are the coefficients, and the DFT of the taps is the
   response of the impulse response at the subcarriers f = k W / fft *)
W == 1000
Ap == <<<<<<"1", "0.5">>>>, <<<<"-0.25", "2">>>>>>
Grid == \A d \in 0..3, lmin \in -2..0, k \in DOMAIN Centred(c.fft) :
    LET tau == <<FDiv(d, W), "0">> lmax == 3
        taps == [i \in 1..(lmax - lmin + 1) |-> TapAt(lmin + i - 1, W, Ap, tau, 1)]
        s == Centred(c.fft)[k]
        h == TapsToFreq(taps, lmin, s, c.fft)
        g == FreqAt(FDiv(s * W, c.fft), Ap, tau, 1)
    IN FNear(h[1], g[1], "1e-9", 0) /\ FNear(h[2], g[2], "1e-9", 0)
(* the response at zero frequency is the sum of the coefficients whatever the delays *)
Dc == LET g == FreqAt(0, Ap, <<"0.123", "0.0077">>, 1) IN FNear(g[1], "0.75", "1e-12", 0) /\ FNear(g[2], "2.5", "1e-12", 0)

-------------------------------------------------------------------------------
Cases == [kind : {"freq", "taps", "chain", "ranges"}, norm : BOOLEAN, tau6 : BOOLEAN, prec : {"single", "double"},
          ants : {"siso", "mimo"}, links : {"one", "many"}, times : {"one", "many"}, size : {"even", "odd", "one"}, zero : BOOLEAN]
GenInit == c \in Cases /\ PrintT("CASE " \o ToJson(c)) /\ n = 0 /\ incp = FALSE /\ left = 0 /\ marks = <<>>
GenNext == FALSE /\ UNCHANGED <<c, n, incp, left, marks>>
===============================================================================
