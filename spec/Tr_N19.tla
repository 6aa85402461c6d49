-------------------------------- MODULE Tr_N19 --------------------------------
(* Recorded lives of tapped delay lines against Tdl *)
EXTENDS TraceLib, Tdl
VARIABLES l, cur             \* cur: name and the delay spread last asked for

Dbl(e) == e.prec = "double"
Rel(e) == IF Dbl(e) THEN "1e-12" ELSE "2e-6"
DelaysOf(e) == [i \in 1..Taps(cur.name) |-> Delay(cur.name, cur.asked, i)]
(* sample matrices of one event *)
GramOk(e) == \A i \in DOMAIN e.x : \A j \in DOMAIN e.x :
    LET one == Gram(e.x[i], MId(Len(e.qr)), e.x[j], MId(Len(e.qt)))
        two == Gram(e.y[i], e.qr, e.y[j], e.qt)
        size == FSqrt(FMul(Gram(e.x[i], MId(Len(e.qr)), e.x[i], MId(Len(e.qt)))[1],
                           Gram(e.x[j], MId(Len(e.qr)), e.x[j], MId(Len(e.qt)))[1]))
    IN FNearAll(one, two, FMul(IF Dbl(e) THEN "1e-9" ELSE "3e-4", size), 0)
(* rate of change [rad/s] of a phase turning by z per sample *)
Rate(z, fs) == FMul(fs, FAtan2(z[2], z[1]))
Steady(s, z, tol) == \A t \in 1..(Len(s) - 1) : FNearAll(s[t + 1], CMul(z, s[t]), tol, 0)
(* one sinusoid: a diffuse tap turns at one rate, the same for all antenna pairs, with constant power *)
Turn(e, i) == CDivide(e.a[i][1][2], e.a[i][1][1])
DiffuseTap(e, i, wmax) == LET z == Turn(e, i) p == Table[e.name].diff[i] IN
    /\ \A k \in DOMAIN e.a[i] : Steady(e.a[i][k], z, "1e-9") /\ \A t \in DOMAIN e.a[i][k] : FNear(CAbs2(e.a[i][k][t]), p, 0, "1e-9")
    /\ FLe(FAbs(Rate(z, e.fs)), FAdd(wmax, FAdd("1e-5", FMul("1e-9", wmax))))
(* first tap of a line-of-sight model: differences of antennas turn like the diffuse part; the specular part remains *)
Best(e) == CHOOSE k \in 2..Len(e.a[1]) : \A m \in 2..Len(e.a[1]) :
              FLe(CAbs2(CSub(e.a[1][1][1], e.a[1][m][1])), CAbs2(CSub(e.a[1][1][1], e.a[1][k][1])))
SpecTurn(e) == LET k == Best(e) d(t) == CSub(e.a[1][1][t], e.a[1][k][t]) z == CDivide(d(2), d(1))
                   g == [t \in 1..(Len(e.a[1][1]) - 1) |-> CSub(e.a[1][1][t + 1], CMul(z, e.a[1][1][t]))]
               IN [ok |-> FLe("1e-3", CAbs2(d(1))) /\ FLe("1e-6", CAbs2(g[1])), zdiff |-> z, z |-> CDivide(g[2], g[1]), g |-> g]
SpecPower(e, s) == FNear(CAbs2(s.g[1]), FMul(Table[e.name].spec, CAbs2(CSub(s.z, s.zdiff))), "1e-12", "1e-6")
Between(x, a, b, tol) == FLe(FSub(a, tol), x) /\ FLe(x, FAdd(b, tol))
RateTol(e) == FAdd("1e-3", FMul("1e-5", e.wmax))

(* statistics over batch examples: s[b][antenna][tap], later: at a lag *)
Mean(n, f(_)) == LET s == CSum([b \in 1..n |-> f(b)]) IN <<FDiv(s[1], n), FDiv(s[2], n)>>
Bound(n, p) == FDiv(FMul(7, p), FSqrt(n))
NearStat(m, re, im, b) == FLe(CAbs2(CSub(m, <<re, im>>)), FSqr(b))
Quad(e) == [k \in 1..24 |-> FAdd(e.wmin, FMul(FSub(e.wmax, e.wmin), FDiv(2 * k - 1, 48)))]
(* expected correlation of samples a lag apart *)
LagCorr(e, i) == LET J == FDiv(FSum([k \in 1..24 |-> J0(FMul(Quad(e)[k], e.lag))]), 24)
                     S == CSum([k \in 1..24 |-> CExpI(FMul(FMul(Quad(e)[k], e.lag), FCos(e.aoa)))])
                     p == Spec(e.name, i)
                 IN <<FAdd(FMul(Table[e.name].diff[i], J), FMul(p, FDiv(S[1], 24))), FMul(p, FDiv(S[2], 24))>>
Stats(e) ==
    LET n == Len(e.s) T == 1..Taps(e.name) P(i) == Table[e.name].pow[i] geo(i, j) == FSqrt(FMul(P(i), P(j))) IN
    << <<"MeanPower", \A i \in T : NearStat(Mean(n, LAMBDA b : CMul(e.s[b][1][i], CConj(e.s[b][1][i]))), P(i), 0, Bound(n, P(i)))
                               /\ NearStat(Mean(n, LAMBDA b : CMul(e.s[b][2][i], CConj(e.s[b][2][i]))), P(i), 0, Bound(n, P(i)))>>,
       <<"ZeroMean", \A i \in T : NearStat(Mean(n, LAMBDA b : e.s[b][1][i]), 0, 0, Bound(n, FSqrt(P(i))))>>,
       <<"AntennasIndependent", \A i \in T : NearStat(Mean(n, LAMBDA b : CMul(e.s[b][1][i], CConj(e.s[b][2][i]))), Spec(e.name, i), 0, Bound(n, P(i)))>>,
       <<"TapsIndependent", \A i \in T : i = 1 \/ NearStat(Mean(n, LAMBDA b : CMul(e.s[b][1][i], CConj(e.s[b][1][i - 1]))), 0, 0, Bound(n, geo(i, i - 1)))>>,
       <<"ExamplesIndependent", \A i \in T : NearStat(Mean(n - 1, LAMBDA b : CMul(e.s[b][1][i], CConj(e.s[b + 1][1][i]))), 0, 0, Bound(n - 1, P(i)))>>,
       <<"Aging", \A i \in T : LET x == LagCorr(e, i) IN
            NearStat(Mean(n, LAMBDA b : CMul(e.later[b][i], CConj(e.s[b][1][i]))), x[1], x[2], Bound(n, P(i)))>> >>

(* one sinusoid: the fastest tap of an example b turns almost as fast as the example's receiver moves *)
Fastest(e, b) == FMaxSeq([i \in 1..Len(e.z[b]) |-> LET y == CMul(e.z[b][i][2], CConj(e.z[b][i][1])) IN FAbs(Rate(y, e.fs))])
Speeds(e) ==
    LET n == Len(e.z)
        w == TLCEval([b \in 1..n |-> Fastest(e, b)])
        width == FSub(e.wmax, e.wmin)
        late(b) == FSub(w[b], FDiv(FSum(w), n))
        lag == FDiv(FSum([b \in 1..(n - 1) |-> FMul(late(b), late(b + 1))]), n)
    IN << <<"SpeedsWithinRange", \A b \in 1..n : FLe(w[b], FAdd(e.wmax, RateTol(e)))>>,
          <<"SpeedsOfExamples", FLe(FMul("0.6", width), FSub(FMaxSeq(w), FMinSeq(w)))>>,
          <<"SpeedsUniform", /\ Between(FDiv(FSum(w), n), FAdd(FMul("0.95", e.wmin), FMul("0.2", width)), FAdd(e.wmin, FMul("0.75", width)), 0)
                             /\ FLe(FAbs(lag), FMul("0.07", FSqr(width)))>> >>

Clauses(e) ==
    CASE e.ev = "begin" -> <<>>
      [] e.ev = "create" -> << <<"Admission", e.ok = TdlOk(e)>> >>
      [] e.ev = "props" ->
         << <<"Delays", HasShape(e.delays, <<Taps(cur.name)>>) /\ FNearAll(e.delays, DelaysOf(e), "1e-18", Rel(e))>>,
            <<"Powers", HasShape(e.powers, <<Taps(cur.name)>>) /\ FNearAll(e.powers, Table[cur.name].pow, 0, Rel(e))>>,
            <<"LineOfSight", e.los = Profiles[cur.name].los>>,
            <<"SpecularPower", Profiles[cur.name].los => FNear(e.plos, Table[cur.name].spec, 0, Rel(e))>>,
            <<"KFactor", Profiles[cur.name].los => FNear(e.k, FDiv(Table[cur.name].spec, Table[cur.name].diff[1]), 0, Rel(e))>>,
            <<"Spread", FNear(e.ds, Spread(cur.name, cur.asked), 0, Rel(e))>>,
            <<"Counts", e.ncl = Taps(cur.name)>> >>
      [] e.ev = "set" -> <<>>
      [] e.ev = "call" ->
         << <<"Shape", e.shape = <<e.b, 1, e.rx, 1, e.tx, Taps(cur.name), e.nt>> /\ FAllFinite(e.a)>>,
            <<"Delays", HasShape(e.tau, <<e.b, 1, 1, Taps(cur.name)>>)
                        /\ \A b \in 1..e.b : FNearAll(e.tau[b][1][1], DelaysOf(e), "1e-18", Rel(e))>>,
            <<"Bounded", \A i \in DOMAIN e.peak : FLe(FSqrt(e.peak[i]), FAdd("1e-5", FMul(FAdd(FSqrt(Spec(cur.name, i)),
                           FSqrt(FMul(e.sin, Table[cur.name].diff[i]))), e.gain)))>>,
            <<"Type", e.types = IF Dbl(e) THEN <<"complex128", "float64">> ELSE <<"complex64", "float32">>>> >>
      [] e.ev = "gram" ->
         << <<"InverseGiven", FNearAll(MMul(e.rr, e.qr), MId(Len(e.qr)), "1e-9", 0) /\ FNearAll(MMul(e.rt, e.qt), MId(Len(e.qt)), "1e-9", 0)>>,
            <<"AntennaCorrelation", GramOk(e)>> >>
      [] e.ev = "evolve" ->
         IF Profiles[e.name].los
         THEN LET s == TLCEval(SpecTurn(e)) w == FDiv(Rate(s.z, e.fs), FCos(e.aoa)) IN
              IF ~s.ok THEN <<>> ELSE
              << <<"SpecularDoppler", Between(w, e.wmin, e.wmax, RateTol(e))>>,
                 <<"SpecularPower", SpecPower(e, s)>>,
                 <<"SpecularSteady", Steady(s.g, s.z, "1e-7")>>,
                 <<"DiffuseDoppler", \A i \in 2..Taps(e.name) : DiffuseTap(e, i, FAdd(w, RateTol(e)))>> >>
         ELSE << <<"DiffuseDoppler", \A i \in 1..Taps(e.name) : DiffuseTap(e, i, e.wmax)>> >>
      [] e.ev = "stats" -> Stats(e)
      [] e.ev = "speeds" -> Speeds(e)
      [] OTHER -> << <<"Completes", FALSE>> >>

Init == l = 1 /\ cur = [name |-> "A", asked |-> "0"]
Next == \/ /\ l <= Len(Trace) /\ Judge(l, Clauses(Trace[l])) /\ l' = l + 1
           /\ cur' = LET e == Trace[l] IN
                     IF e.ev = "create" THEN [name |-> e.name, asked |-> e.ds]
                     ELSE IF e.ev = "set" THEN [cur EXCEPT !.asked = e.v] ELSE cur
        \/ l = Len(Trace) + 1 /\ Done /\ l' = l + 1 /\ UNCHANGED cur
===============================================================================
