-------------------------------- MODULE MC_N19 --------------------------------
(***************************************************************************)
(* Life of a tapped delay line: created with a delay spread, which may be  *)
(* changed between realisations.  A realisation must use the delays of the *)
(* spread asked for last - or those of the profile, where it fixes them.   *)
(* The machine keeps what an implementation keeps (the spread in force and *)
(* the delays it would use), the history keeps what was asked.             *)
(***************************************************************************)
EXTENDS Tdl, Json
CONSTANTS Depth
VARIABLES name, spread, asked, out, n, c
vars == <<name, spread, asked, out, n, c>>
Spreads == {"1e-8", "1e-7", "3e-7"}

Init == /\ name \in Names /\ asked \in Spreads /\ spread = Spread(name, asked) /\ out = <<>> /\ n = 0 /\ c = 0
Set(v) == asked' = v /\ spread' = (IF Profiles[name].scaled THEN v ELSE spread) /\ UNCHANGED <<name, out, c>>
Call == out' = [i \in 1..Taps(name) |-> IF Profiles[name].scaled THEN FMul(Profiles[name].d[i + Skip(name)], spread)
                                        ELSE FMul(Profiles[name].d[i + Skip(name)], "1e-9")] /\ UNCHANGED <<name, asked, spread, c>>
Next == n < Depth /\ n' = n + 1 /\ (Call \/ \E v \in Spreads : Set(v))

SpreadInForce == spread = Spread(name, asked)
(* delays come in ascending order from zero; the taps' powers sum to one *)
DelaysRight == out # <<>> => /\ FEq(out[1], 0) /\ \A i \in 1..(Len(out) - 1) : FLe(out[i], out[i + 1])
CallUsesLatest == [][Call => out' = [i \in 1..Taps(name) |-> Delay(name, asked, i)]]_vars
Normalised == /\ FNear(FSum(Table[name].pow), 1, "1e-12", 0)
              /\ FNear(FAdd(Table[name].spec, FSum(Table[name].diff)), 1, "1e-12", 0)
(* K-factors of the line-of-sight profiles: 10.224 dB and 11.707 dB (TR 38.811) *)
KFactor == Profiles[name].los => FNear(FMul(10, FLog10(FDiv(Table[name].spec, Table[name].diff[1]))),
                                       IF name = "C" THEN "10.224" ELSE "11.707", "1e-9", 0)
(* the profiles A30, B100, C300 have about the delay spread of their name *)
Rms(nm) == LET w == Table[nm].pow d == [i \in 1..Taps(nm) |-> Profiles[nm].d[i + Skip(nm)]] m == FDot(w, d) IN
           FSqrt(FDot(w, [i \in DOMAIN d |-> FSqr(FSub(d[i], m))]))
SpreadOk == IF Profiles[name].scaled THEN FNear(Rms(name), 1, "0.01", 0)
            ELSE FNear(FMul(Rms(name), "1e-9"), Profiles[name].ds, 0, "0.03")

-------------------------------------------------------------------------------
(* Theorems on correlation: mixing with any square roots (here: lower triangular ones times a rotation) keeps the
   Gram products; mixing with the root instead of its adjoint at the transmitter does not *)
Rho == {<<"0.3", "0.4">>, <<"-0.6", "0.1">>, <<"0.7", "0">>}
R2(r) == <<<<<<"1", "0">>, r>>, <<CConj(r), <<"1", "0">>>>>>
Q2(r) == LET s == FSub(1, CAbs2(r)) g == FDiv(1, s) IN
    <<<<<<g, "0">>, <<FNeg(FMul(g, r[1])), FNeg(FMul(g, r[2]))>>>>, <<<<FNeg(FMul(g, r[1])), FMul(g, r[2])>>, <<g, "0">>>>>>
Low(r) == <<<<<<"1", "0">>, <<"0", "0">>>>, <<CConj(r), <<FSqrt(FSub(1, CAbs2(r))), "0">>>>>>
Rot(a) == <<<<<<FCos(a), "0">>, <<FNeg(FSin(a)), "0">>>>, <<<<FSin(a), "0">>, <<FCos(a), "0">>>>>>
X1 == <<<<<<"0.2", "-1">>, <<"0.7", "0.3">>>>, <<<<"-1.1", "0.4">>, <<"0.5", "0.5">>>>>>
X2 == <<<<<<"1.2", "0.1">>, <<"-0.4", "0.9">>>>, <<<<"0.3", "0.8">>, <<"-0.6", "1.5">>>>>>
NearC(z, w) == FNearAll(z, w, "1e-9", 0)
Mix(A, X, B) == MMul(MMul(A, X), B)
Correlation == n > 0 \/ \A r \in Rho, s \in Rho, a \in {"0", "0.7"} :
    LET A == MMul(Low(r), Rot(a)) B == Low(s) G(X, Y) == Gram(X, Q2(r), Y, Q2(s)) P(X, Y) == Gram(X, MId(2), Y, MId(2)) IN
    /\ FNearAll(MMul(R2(r), Q2(r)), MId(2), "1e-12", 0) /\ FNearAll(MMul(A, MAdj(A)), R2(r), "1e-12", 0)
    /\ NearC(G(Mix(A, X1, MAdj(B)), Mix(A, X2, MAdj(B))), P(X1, X2))
    /\ ~NearC(G(Mix(A, X1, B), Mix(A, X2, B)), P(X1, X2))
(* a uniform angle of arrival behind N equally spaced sectors has the autocorrelation J0 *)
Sectors == n > 0 \/ \A x \in {"0.1", "1", "3.5"}, N \in {1, 2, 5} :
    LET mean == FDiv(FSum([k \in 1..N |-> FDiv(FSum([m \in 1..40 |->
                     FCos(FMul(x, FCos(FAdd(FDiv(FMul(TwoPi, k), N), FDiv(FMul(TwoPi, FDiv(2 * m - 41, 80)), N)))))]), 40)]), N)
    IN FNear(mean, J0(x), "1e-6", 0)
ASSUME \A x \in {<<"0", "1">>, <<"1", "0.7651976865579666">>, <<"5.5", "-0.00684386941281698">>} : FNear(J0(x[1]), x[2], "1e-9", 0)

-------------------------------------------------------------------------------
Cases == [name : Names \cup {"E", "F"}, corr : {"none", "rx", "tx", "both", "full"}, prec : {"single", "double"}, sin : {1, 2, 20},
          speed : {"zero", "fixed", "range", "wrong"}, el : {"0", "35.5", "90", "90.1", "-1"}, h : {"159999", "160000", "600e3", "35786e3"},
          ants : {<<1, 1>>, <<2, 3>>, <<3, 2>>, <<1, 4>>}, set : {"none", "one", "two"}]
Bad(x) == (IF x.name \in {"E", "F"} THEN 1 ELSE 0) + (IF x.speed = "wrong" THEN 1 ELSE 0) + (IF x.el \in {"90.1", "-1"} THEN 1 ELSE 0)
          + (IF x.h = "159999" THEN 1 ELSE 0)
GenInit == /\ c \in {x \in Cases : Bad(x) <= 1 /\ (Bad(x) = 1 => x.corr = "none" /\ x.ants = <<1, 1>> /\ x.set = "none" /\ x.sin = 20)}
           /\ PrintT("CASE " \o ToJson(c)) /\ name = "A" /\ spread = "0" /\ asked = "0" /\ out = <<>> /\ n = 0
GenNext == FALSE /\ UNCHANGED vars
===============================================================================
