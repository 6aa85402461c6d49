-------------------------------- MODULE Tr_N25 --------------------------------
(* Recorded figures against Views *)
EXTENDS TraceLib, Views
VARIABLE l

Tol(e) == IF e.prec = "double" THEN "1e-9" ELSE "2e-6"
Near3(e, p, q) == FNearAll(p, q, "1e-3", Tol(e))
(* every element of one sequence has a partner in the other, and there are as many *)
Matched(e, shown, want) ==
    /\ Len(shown) = Len(want)
    /\ \A i \in DOMAIN want : \E j \in DOMAIN shown : Near3(e, shown[j], want[i])
    /\ \A j \in DOMAIN shown : \E i \in DOMAIN want : Near3(e, shown[j], want[i])
Select(x, S) == LET n == Len(x) IN [i \in 1..Cardinality(S) |-> x[CHOOSE u \in S : Cardinality({w \in S : w < u}) = i - 1]]
Parallel(d, v, tol) ==
    LET n == FSqrt(Dot3(d, d)) IN
    /\ FLt(0, Dot3(d, v))
    /\ \A k \in 1..3 : FNear(FDiv(d[k], n), v[k], tol, 0)

Deployment(e) ==
    LET R(p) == Read(p, e.units)
        AsRead(x) == TLCEval([i \in DOMAIN x |-> R(x[i])])
        nodes == e.bs \o e.ut
        ori == e.bso \o e.uto
        name(n) == IF n <= Len(e.bs) THEN n - 1 ELSE n - 1 - Len(e.bs)
    IN << <<"Bs", Matched(e, AsRead(e.fig.bs), e.bs)>>,
          <<"LosUts", Matched(e, AsRead(e.fig.los), Select(e.ut, Group(e.los, TRUE)))>>,
          <<"NlosUts", Matched(e, AsRead(e.fig.nlos), Select(e.ut, Group(e.los, FALSE)))>>,
          <<"Names", /\ Len(e.fig.texts) = Len(nodes)
                     /\ \A n \in DOMAIN nodes : \E t \in DOMAIN e.fig.texts :
                           e.fig.texts[t].n = name(n) /\ Near3(e, R(e.fig.texts[t].p), nodes[n])>>,
          <<"Orientations", /\ Len(e.fig.lines) = 3 * Len(nodes)
                            /\ \A n \in DOMAIN nodes : \A k \in 1..3 : \E t \in DOMAIN e.fig.lines :
                                 LET g == e.fig.lines[t]  p == R(g.p)  q == R(g.q)
                                     d == [i \in 1..3 |-> FSub(q[i], p[i])]
                                     big == FMaxSeq([i \in 1..3 |-> FAbs(p[i])])
                                 IN /\ g.axis = k /\ Near3(e, p, nodes[n])
                                    /\ Parallel(d, AxisOf(ori[n], k), FAdd("2e-3", FDiv(FMul("4e-7", big), FSqrt(Dot3(d, d)))))>>,
          <<"NothingElse", e.newfigs = 1 /\ e.same>> >>

(* a cut of a pattern: angle and gain in dB *)
CutOk(e, g, P(_)) ==
    \A i \in DOMAIN g.x : LET w == P(g.x[i]) v == FPow(10, FDiv(g.y[i], 10)) IN FNear(v, w, "2e-3", "2e-3")
Edge(e, t, p) == e.pattern = "aperture" /\ FLe(FAbs(FMul(FSin(t), FCos(p))), "1e-5")
FHyp(p) == FSqrt(FAdd(FMul(p[1], p[1]), FMul(p[2], p[2])))
Element(e) ==
    << <<"VerticalCut", Len(e.v.x) >= 30 /\ CutOk(e, e.v, LAMBDA t : Power(e.pattern, t, 0))>>,
       <<"HorizontalCut", Len(e.h.x) >= 30 /\ \A i \in DOMAIN e.h.x :
            Edge(e, HalfPi, e.h.x[i]) \/ CutOk(e, [x |-> <<e.h.x[i]>>, y |-> <<e.h.y[i]>>], LAMBDA p : Power(e.pattern, HalfPi, p))>>,
       \* points of the surface (not on its axis): their distance from the origin is the gain in their direction
       <<"Surface", e.pattern = "aperture" \/ \A i \in DOMAIN e.s : LET p == e.s[i] r == FSqrt(Dot3(p, p)) IN
            FLe(FHyp(p), FMul("1e-4", r)) \/ FLe(r, "1e-3") \/ FNear(r, Power(e.pattern, FAcos(FMax(-1, FMin(1, FDiv(p[3], r)))), FAtan2(p[2], p[1])), "2e-3", "5e-3")>>,
       <<"NothingElse", e.newfigs = 3>> >>

(* arrays and panels: y and z of the elements, in metres or wavelengths *)
Pos2(arr, n, unit) == LET p == ElemPos(arr, n) IN <<FMul(p[2], unit), FMul(p[3], unit)>>
OfPol(arr, q) == {n \in 1..NAnt(arr) : PolOf(arr, n) = q}
Near2(arr, p, q, unit) == FNearAll(p, q, FMul(FMul(Lambda(arr), unit), "1e-5"), 0)
Layout(e) ==
    LET arr == e.arr
        unit == IF e.ev = "panel" THEN FDiv(1, Lambda(arr)) ELSE F(1)
        Elems(q) == LET S == OfPol(arr, q) IN TLCEval([i \in 1..Cardinality(S) |-> Pos2(arr, CHOOSE u \in S : Cardinality({w \in S : w < u}) = i - 1, unit)])
        Same(x, y) == Len(x) = Len(y) /\ (\A i \in DOMAIN x : \E j \in DOMAIN y : Near2(arr, x[i], y[j], unit))
                                      /\ (\A j \in DOMAIN y : \E i \in DOMAIN x : Near2(arr, x[i], y[j], unit))
    IN << <<"Polarizations", Len(e.lines) = NPol(arr)>>,
          <<"Elements", Len(e.lines) = NPol(arr) => \A q \in 1..NPol(arr) : Same(e.lines[q].pts, Elems(q))>>,
          <<"Markers", (e.ev = "array" /\ Len(e.lines) = NPol(arr)) => \A q \in 1..NPol(arr) :
                LET d == FMod(FSub(e.lines[q].angle, PolLine(Slants(arr.ptype)[q])), 180) IN FLe(FMin(d, FSub(180, d)), 1)>>,
          <<"Numbers", /\ Len(e.texts) = Cardinality(OfPol(arr, 1))
                       /\ \A n \in OfPol(arr, 1) : \E t \in DOMAIN e.texts :
                             e.texts[t].n = n /\ Near2(arr, e.texts[t].p, Pos2(arr, n, unit), unit)>>,
          <<"NothingElse", e.newfigs = 1>> >>

Clauses(e) ==
    CASE e.ev = "begin" -> <<>>
      [] e.ev = "deployment" -> Deployment(e)
      [] e.ev = "element" -> Element(e)
      [] e.ev \in {"array", "panel"} -> Layout(e)
      [] OTHER -> << <<"Completes", FALSE>> >>

Init == l = 1
Next == \/ l <= Len(Trace) /\ Judge(l, Clauses(Trace[l])) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done /\ l' = l + 1
===============================================================================
