-------------------------------- MODULE Tr_N22 --------------------------------
(***************************************************************************)
(* Recorded realisations, eager and compiled: fresh in one epoch, equal    *)
(* bit by bit after equal seeding and operations, different for other      *)
(* seeds; and with the specified content.                                  *)
(*                                                                         *)
(*   epoch  seed            seeding; a new model is made                   *)
(*   real   op, digest, vals (of every cluster), order, phases, ...        *)
(*   twins  values of links with the same inputs                           *)
(*   coins  signs of cluster angles of consecutive realisations            *)
(*   sys    as SysLib                                                      *)
(***************************************************************************)
EXTENDS SysLib, Rays, Lsp
VARIABLES l, st

Quantities == {"delays", "powers", "aoa", "aod", "zoa", "zod", "xpr"}
Signed == {"aoa", "aod", "zod"}
Zero == [q \in Signed |-> <<0, 0>>]
Clear == [eager |-> Zero, compiled |-> Zero, examples |-> Zero, los |-> <<0, 0>>]
Start == [seed |-> 0, hist |-> <<>>, memo |-> {}, seen |-> {}, lsp |-> {}, nlsp |-> TRUE,
          pool |-> Clear, last |-> <<>>]

DefEnv == [latitude |-> 47, lwc |-> "0.41", rain |-> 40, pressure |-> 1020, temperature |-> 273,
           vapor |-> "7.5", humidity |-> 50, diameter |-> "3.6", efficiency |-> "0.5"]

(* Elements of a recorded array [batch][BS][UT][cluster] which are drawn    *)
(* separately: of clusters after the first which have power                *)
Cells(e) == {k \in (1..Len(e.power)) \X (1..Len(e.power[1])) \X (1..Len(e.power[1][1])) \X (2..Len(e.power[1][1][1])) :
                e.power[k[1]][k[2]][k[3]][k[4]]}
Get(x, k) == x[k[1]][k[2]][k[3]][k[4]]
LosOf(e, k) == e.los[k[1]][k[2]][k[3]]
(* angles without spread are not drawn *)
Flat(e, q, k) == q \in Kinds /\ Departs(q) /\ InSpace(e.height[k[2]])
Spread(e, q, k) ==
    CASE Flat(e, q, k) -> FALSE
      [] q = "aod" -> ~Vanishing(LspMean(e.cfg, LosOf(e, k), 2)) [] q = "aoa" -> ~Vanishing(LspMean(e.cfg, LosOf(e, k), 3))
      [] q = "zoa" -> ~Vanishing(LspMean(e.cfg, LosOf(e, k), 6)) [] q = "zod" -> ~Vanishing(LspMean(e.cfg, LosOf(e, k), 7))
      [] OTHER -> TRUE
CellsOf(e, q) == {k \in Cells(e) : Spread(e, q, k)}
Drawn(e, q) == {Get(e.vals[q], k) : k \in CellsOf(e, q)}
(* random coupling and the satellite's heading are shared by the UTs of a BS, the heading also by BSs *)
Coupled(e, q) == {x \in Cells(e) : x[3] = 1 /\ ~Flat(e, q, x) /\ ~FEq(IntraSpread(e.cfg, LosOf(e, x), q), 0)}
Order(e, q) == {Get(e.order[q], k) : k \in Coupled(e, q)}
PhaseSet(e) == {e.phases[i] : i \in DOMAIN e.phases}

AllDrawn(e) == (UNION {Drawn(e, q) : q \in Quantities}) \cup PhaseSet(e) \cup {e.heading[b] : b \in DOMAIN e.heading}
               \cup (UNION {Order(e, q) : q \in {"aoa", "aod", "zoa", "zod"}})
LspSet(e) == {e.lsp[i] : i \in DOMAIN e.lsp}

KeyOf(s, e) == <<s.seed, Append(s.hist, e.op)>>
(* agreement of signs: <<equal, compared>> *)
Agree(q, x, y, K) == LET c == {k \in K : x[q][k[1]][k[2]][k[3]][k[4]] # 0 /\ y[q][k[1]][k[2]][k[3]][k[4]] # 0}
                        IN <<Cardinality({k \in c : Get(x[q], k) = Get(y[q], k)}), Cardinality(c)>>
Nlos(e, K) == {k \in K : ~e.los[k[1]][k[2]][k[3]] /\ k[3] = 1}
Shift(x) == [q \in DOMAIN x |-> [b \in 1..Len(x[q]) |-> x[q][(b % Len(x[q])) + 1]]]
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
LosShift(e) == LET n == Len(e.los) IN
    LET K == (1..n) \X (1..Len(e.los[1])) \X (1..Len(e.los[1][1]))
    IN <<Cardinality({k \in K : e.los[k[1]][k[2]][k[3]] = e.los[(k[1] % n) + 1][k[2]][k[3]]}), Cardinality(K)>>
Pool(s, e) ==
    LET KQ(q) == Nlos(e, CellsOf(e, q))
        P == [q \in Signed |-> IF s.last = <<>> \/ s.last[1].id # e.id THEN <<0, 0>> ELSE Agree(q, e.sgn, s.last[1].sgn, KQ(q) \cap Nlos(s.last[1], CellsOf(s.last[1], q)))]
        X == [q \in Signed |-> Agree(q, e.sgn, Shift(e.sgn), KQ(q))]
        g == e.group
    IN [p \in DOMAIN s.pool |-> IF p = "los" THEN (IF e.free THEN Plus(s.pool[p], LosShift(e)) ELSE s.pool[p])
                                ELSE [q \in Signed |-> Plus(s.pool[p][q], IF p = "examples" THEN X[q] ELSE IF p = g THEN P[q] ELSE <<0, 0>>)]]

After(s, e) ==
    CASE e.ev = "begin" -> Start
      [] e.ev = "epoch" -> [s EXCEPT !.seed = e.seed, !.hist = <<>>, !.seen = {}, !.lsp = {}, !.nlsp = TRUE]
      [] e.ev = "update" -> [s EXCEPT !.hist = Append(@, "update"), !.nlsp = TRUE]
      [] e.ev = "real" -> [s EXCEPT !.hist = Append(@, e.op),
                                    !.seen = @ \cup AllDrawn(e), !.lsp = @ \cup LspSet(e), !.nlsp = FALSE,
                                    !.memo = @ \cup {<<KeyOf(s, e), e.digest, AllDrawn(e) \cup LspSet(e)>>}]
      [] e.ev = "twins" -> [s EXCEPT !.seen = @ \cup UNION {Drawn(e, q) : q \in Quantities}]
      [] e.ev = "coins" -> [s EXCEPT !.last = <<e>>, !.pool = Pool(s, e)]
      [] OTHER -> s

RealClauses(s, e) ==
    LET key == KeyOf(s, e)
        same == {x \in s.memo : x[1] = key}
        others == {x \in s.memo : x[1][1] # s.seed}
        new == s.nlsp \/ e.always
        A == TLCEval(AllDrawn(e))
    IN << <<"Reproducible", \A x \in same : x[2] = e.digest>>,
          <<"SeedsMatter", \A x \in others : x[2] # e.digest /\ (e.double => x[3] \cap (A \cup LspSet(e)) = {})>> >>
       \o (IF ~e.double THEN <<>> ELSE
          [i \in 1..7 |-> LET q == <<"delays", "powers", "aoa", "aod", "zoa", "zod", "xpr">>[i]
                          IN <<"Fresh:" \o q, Cardinality(Drawn(e, q)) = Cardinality(CellsOf(e, q)) /\ Drawn(e, q) \cap s.seen = {}>>]
          \o << <<"Fresh:phases", Cardinality(PhaseSet(e)) = Len(e.phases) /\ PhaseSet(e) \cap s.seen = {}>>,
                <<"Fresh:coupling", \A q \in {"aoa", "aod", "zoa", "zod"} :
                        Cardinality(Order(e, q)) = Cardinality(Coupled(e, q)) /\ Order(e, q) \cap s.seen = {}>>,
                <<"Fresh:heading", LET H == {e.heading[b] : b \in DOMAIN e.heading}
                                   IN Cardinality(H) = Len(e.heading) /\ H \cap s.seen = {}>>,
                <<"Lsp", /\ Cardinality(LspSet(e)) = Len(e.lsp)
                         /\ IF new THEN LspSet(e) \cap s.lsp = {} ELSE LspSet(e) \subseteq s.lsp>>,
                <<"Pathloss", e.free => Cardinality({e.loss[i] : i \in DOMAIN e.loss}) = Len(e.loss)>> >>)

(* the specified content, however the realisation is executed *)
SysClauses(e) ==
    IF ~SysShape(e) THEN << <<"Shape", FALSE>> >>
    ELSE LET g == TLCEval(GasLoss(e.cfg.f, e.cfg.el, DefEnv)) c == TLCEval(ScintLoss(e.cfg.f, e.cfg.el, DefEnv))
             P(n, k) == e.pl[n][k[1]][k[2]][k[3]]
         IN << <<"Coefficients", \A k \in SysLinks(e) : SysCoefOk(e, k)>>,
               <<"Delays", \A k \in SysLinks(e) : FNearAll(OutDelay(e, k), Delays(SysLink(e, k)), "1e-15", "1e-9")>>,
               <<"Losses", \A k \in SysLinks(e) :
                    /\ FNear(P("g", k), g, "1e-6", "1e-7") /\ FNear(P("s", k), c, "1e-6", "1e-7") /\ FEq(P("e", k), EntryLoss)
                    /\ FLe(FAbs(FSub(P("b", k), FAdd(FreeSpace(e.cfg.f, Slant(e, k)), Clutter(e.cfg, e.los[k[1]][k[2]][k[3]])))),
                           FAdd("3e-3", IF e.sfon THEN FMul(8, ShadowStd(e.cfg, e.los[k[1]][k[2]][k[3]])) ELSE 0))>>,
               <<"LosRequest", \A k \in SysLinks(e) : e.req = "drawn" \/ e.los[k[1]][k[2]][k[3]] = (e.req = "true")>> >>

TwinClauses(s, e) ==
    [i \in 1..7 |-> LET q == <<"delays", "powers", "aoa", "aod", "zoa", "zod", "xpr">>[i]
                    IN <<"Twins:" \o q, Cardinality(Drawn(e, q)) = Cardinality(CellsOf(e, q)) /\ Drawn(e, q) \cap s.seen = {}>>]

(* frequencies of equal signs: independent fair coins *)
Fair(c) == c[2] < 150 \/ 100 * c[1] <= 72 * c[2]
EndClauses(s) ==
    << <<"SignsRedrawn", \A q \in Signed : Fair(s.pool.eager[q])>>,
       <<"SignsRedrawnCompiled", \A q \in Signed : Fair(s.pool.compiled[q])>>,
       <<"SignsOfExamples", \A q \in Signed : Fair(s.pool.examples[q])>>,
       <<"LosOfExamples", s.pool.los[2] < 100 \/ 100 * s.pool.los[1] <= 92 * s.pool.los[2]>> >>

Clauses(s, e) ==
    CASE e.ev \in {"begin", "epoch", "update", "coins"} -> <<>>
      [] e.ev = "real" -> RealClauses(s, e)
      [] e.ev = "sys" -> SysClauses(e)
      [] e.ev = "twins" -> TwinClauses(s, e)
      [] e.ev = "end" -> EndClauses(s)
      [] OTHER -> << <<"Completes", FALSE>> >>

Init == l = 1 /\ st = Start
Next == \/ l <= Len(Trace) /\ Judge(l, Clauses(st, Trace[l])) /\ l' = l + 1 /\ st' = After(st, Trace[l])
        \/ l = Len(Trace) + 1 /\ Done /\ l' = l + 1 /\ UNCHANGED st
===============================================================================
