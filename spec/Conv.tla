-------------------------------- MODULE Conv ---------------------------------
(***************************************************************************)
(* Conversions of a channel impulse response (a, tau) of one antenna pair. *)
(* a: [path][time] complex, tau: [path]                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FloatMath
LOCAL PI == "3.141592653589793"
TwoPi == FMul(2, PI)

(* the integers in the middle of a spectrum of n: -n/2 .. n/2-1 or -(n-1)/2 .. (n-1)/2 *)
First(n) == IF n % 2 = 0 THEN -(n \div 2) ELSE -((n - 1) \div 2)
Centred(n) == [i \in 1..n |-> First(n) + i - 1]

FreqAt(f, a, tau, t) == CSum([m \in DOMAIN tau |-> CMul(a[m][t], CExpI(FNeg(FMul(TwoPi, FMul(f, tau[m])))))])
Sinc(x) == IF FEq(x, 0) THEN "1" ELSE FDiv(FSin(FMul(PI, x)), FMul(PI, x))
CScale(s, z) == <<FMul(s, z[1]), FMul(s, z[2])>>
TapAt(l, w, a, tau, t) == CSum([m \in DOMAIN tau |-> CScale(Sinc(FSub(l, FMul(w, tau[m]))), a[m][t])])

(* OFDM: symbol k (from 0) starts behind its cyclic prefix *)
SymbolStart(k, fft, cp) == cp + k * (fft + cp)
NumSymbols(nsamples, fft, cp) == nsamples \div (fft + cp)
(* response on subcarrier c (in Centred(fft)) of taps h[l_min .. ] *)
TapsToFreq(h, lmin, c, fft) ==
    CSum([i \in DOMAIN h |-> CMul(h[i], CExpI(FNeg(FMul(TwoPi, FDiv((c * (lmin + i - 1)) % fft, fft)))))])

Power(z) == FAdd(FSqr(z[1]), FSqr(z[2]))
===============================================================================
