--------------------------------- MODULE Tdl ----------------------------------
(***************************************************************************)
(* Tapped delay lines: NTN-TDL-A..D (TR 38.811, Tables 6.9.2-1 to 6.9.2-4) *)
(* and the simplified profiles A30, B100, C300 (TS 38.101-4, Annex B.2).   *)
(* Profiles of line-of-sight models list the specular part first.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, FloatMath
LOCAL PI == "3.141592653589793"
LightSpeed == 299792458
TwoPi == FMul(2, PI)

Profiles == TLCEval([
   A |-> [los |-> FALSE, scaled |-> TRUE, d |-> <<"0", "1.0811", "2.8416">>, p |-> <<"0", "-4.675", "-6.482">>],
   B |-> [los |-> FALSE, scaled |-> TRUE, d |-> <<"0", "0.7249", "0.7410", "5.7392">>, p |-> <<"0", "-1.973", "-4.332", "-11.914">>],
   C |-> [los |-> TRUE, scaled |-> TRUE, d |-> <<"0", "0", "14.8124">>, p |-> <<"-0.394", "-10.618", "-23.373">>],
   D |-> [los |-> TRUE, scaled |-> TRUE, d |-> <<"0", "0", "0.5596", "7.3340">>, p |-> <<"-0.284", "-11.991", "-9.887", "-16.771">>],
   A30 |-> [los |-> FALSE, scaled |-> FALSE, ds |-> "30e-9",
            d |-> <<"0", "10", "15", "20", "25", "50", "65", "75", "105", "135", "150", "290">>,
            p |-> <<"-15.5", "0", "-5.1", "-5.1", "-9.6", "-8.2", "-13.1", "-11.5", "-11.0", "-16.2", "-16.6", "-26.2">>],
   B100 |-> [los |-> FALSE, scaled |-> FALSE, ds |-> "100e-9",
            d |-> <<"0", "10", "20", "30", "35", "45", "55", "120", "170", "245", "330", "480">>,
            p |-> <<"0", "-2.2", "-0.6", "-0.6", "-0.3", "-1.2", "-5.9", "-2.2", "-0.8", "-6.3", "-7.5", "-7.1">>],
   C300 |-> [los |-> FALSE, scaled |-> FALSE, ds |-> "300e-9",
            d |-> <<"0", "65", "70", "190", "195", "200", "240", "325", "520", "1045", "1510", "2595">>,
            p |-> <<"-6.9", "0", "-7.7", "-2.5", "-2.4", "-9.9", "-8.0", "-6.6", "-7.1", "-13.0", "-14.2", "-16.0">>]])
Names == DOMAIN Profiles
Taps(n) == LET k == Len(Profiles[n].d) IN IF Profiles[n].los THEN k - 1 ELSE k
Skip(n) == IF Profiles[n].los THEN 1 ELSE 0

(* powers: linear, of unit sum *)
Lin(n) == [i \in DOMAIN Profiles[n].p |-> FPow(10, FDiv(Profiles[n].p[i], 10))]
Norm(n) == LET l == Lin(n) s == FSum(l) IN [i \in DOMAIN l |-> FDiv(l[i], s)]
Table == TLCEval([n \in Names |-> LET w == Norm(n) IN
            [spec |-> IF Profiles[n].los THEN w[1] ELSE "0",                   \* specular part of the first tap
             diff |-> [i \in 1..Taps(n) |-> w[i + Skip(n)]],                   \* diffuse part of every tap
             pow |-> [i \in 1..Taps(n) |-> IF Profiles[n].los /\ i = 1 THEN FAdd(w[1], w[2]) ELSE w[i + Skip(n)]]]])
Spec(n, i) == IF i = 1 THEN Table[n].spec ELSE "0"
(* delays [s] under the delay spread ds last asked for *)
Delay(n, ds, i) == IF Profiles[n].scaled THEN FMul(Profiles[n].d[i + Skip(n)], ds) ELSE FMul(Profiles[n].d[i + Skip(n)], "1e-9")
Spread(n, ds) == IF Profiles[n].scaled THEN ds ELSE Profiles[n].ds

TdlOk(m) == /\ m.name \in Names /\ FLe(160000, m.h) /\ FLe(0, m.el) /\ FLe(m.el, 90)
            /\ (m.vmaxgiven => FLe(m.vmin, m.vmax))

(* maximum radian Doppler shift of a receiver *)
Doppler(v, fc) == FMul(TwoPi, FDiv(FMul(v, fc), LightSpeed))

(* J0 as mean of cos(x cos a): rectangle rule, exact to rounding while x < N/2 *)
J0(x) == FDiv(FSum([k \in 1..48 |-> FCos(FMul(x, FCos(FDiv(FMul(TwoPi, k), 48))))]), 48)

(* complex matrices: <<row, ...>> of <<re, im>> *)
CConj(z) == <<z[1], FNeg(z[2])>>
CAbs2(z) == FAdd(FSqr(z[1]), FSqr(z[2]))
CDivide(a, b) == LET q == CMul(a, CConj(b)) s == CAbs2(b) IN <<FDiv(q[1], s), FDiv(q[2], s)>>
CSub(a, b) == <<FSub(a[1], b[1]), FSub(a[2], b[2])>>
Col(M, j) == [i \in DOMAIN M |-> M[i][j]]
MMul(A, B) == [i \in DOMAIN A |-> [j \in DOMAIN B[1] |-> CDot(A[i], Col(B, j))]]
MAdj(A) == [j \in DOMAIN A[1] |-> [i \in DOMAIN A |-> CConj(A[i][j])]]
MTrace(A) == CSum([i \in DOMAIN A |-> A[i][i]])
MId(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN <<"1", "0">> ELSE <<"0", "0">>]]
(* Correlated samples X' = A X B^H with A A^H = Rr and B B^H = Rt keep this product of samples, whichever
   square roots A and B are used (Qr, Qt: the inverses of Rr, Rt) *)
Gram(X, Qr, Y, Qt) == MTrace(MMul(MMul(MAdj(X), Qr), MMul(Y, Qt)))

(* correlation matrices *)
RECURSIVE CPower(_, _)
CPower(z, k) == IF k = 0 THEN <<"1", "0">> ELSE CMul(z, CPower(z, k - 1))
Exponential(a, n) == [i \in 1..n |-> [j \in 1..n |-> IF i >= j THEN CPower(a, i - j) ELSE CConj(CPower(a, j - i))]]
Rad(x) == FDiv(FMul(x, PI), 180)
Deg(x) == FDiv(FMul(x, 180), PI)
Wrap360(x) == FSub(x, FMul(360, FFloor(FDiv(x, 360))))
OneRing(phi, sigma, d, n) == [l \in 1..n |-> [m \in 1..n |->
    LET x == FMul(TwoPi, FMul(d, l - m)) e == CExpI(FMul(x, FSin(Rad(phi))))
        w == FExp(FDiv(FSqr(FMul(Rad(sigma), FMul(x, FCos(Rad(phi))))), -2)) IN <<FMul(w, e[1]), FMul(w, e[2])>>]]
Hermitian(R, tol) == \A i \in DOMAIN R : \A j \in 1..i : FNearAll(R[i][j], CConj(R[j][i]), tol, 0)
UnitDiagonal(R, tol) == \A i \in DOMAIN R : FNearAll(R[i][i], <<"1", "0">>, tol, 0)
(* positive semidefinite: the pivots of symmetric elimination are not negative *)
RECURSIVE Pivots(_)
Pivots(R) == LET p == R[1][1][1] n == Len(R) IN
    IF n = 1 THEN <<p>>
    ELSE <<p>> \o Pivots([i \in 1..(n - 1) |-> [j \in 1..(n - 1) |->
            IF FLe(p, "1e-12") THEN R[i + 1][j + 1]
            ELSE CSub(R[i + 1][j + 1], CDivide(CMul(R[i + 1][1], R[1][j + 1]), <<p, "0">>))]])
Psd(R, tol) == LET p == Pivots(R) IN \A i \in DOMAIN p : FLe(FNeg(tol), p[i])
===============================================================================
