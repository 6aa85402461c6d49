---------------------------- MODULE ScenarioTrace ----------------------------
(***************************************************************************)
(* Recorded histories of real scenarios and channel models, followed with  *)
(* the rules of the machine Scenario.  The trace state `st` holds what the *)
(* machine remembers: the latest value of every input, the environment,    *)
(* the LoS request and the last observation of derived quantities.         *)
(*                                                                         *)
(*   make   cfg, prec, always, plon, sfon, dop      construction           *)
(*   set    given (values), req, env (values), dop, ok, obs, envobs        *)
(*   call   nt, a/tau shapes, LSPs used, link state used, attenuation      *)
(***************************************************************************)
EXTENDS TraceLib, Pathloss, Lsp
M == INSTANCE Scenario WITH always <- 0, known <- 0, req <- 0, indoor <- 0, los <- 0, stale <- 0,
                            todo <- 0, fresh <- 0, since <- 0, out <- 0
VARIABLES l, st

DefaultEnv == [latitude |-> 47, lwc |-> "0.41", rain |-> 40, pressure |-> 1020, temperature |-> 273,
               vapor |-> "7.5", humidity |-> 50, diameter |-> "3.6", efficiency |-> "0.5"]
Nothing == [cfg |-> <<>>]

Over(new, old) == [k \in DOMAIN new \cup DOMAIN old |-> IF k \in DOMAIN new THEN new[k] ELSE old[k]]
Known(s) == DOMAIN s.inp
Conf(s) == Known(s) = M!Inputs
Admit(s, e) == M!Admitted(Known(s), DOMAIN e.given)
Trigger(e) == M!IsTrigger(DOMAIN e.given, e.req)

After(s, e) ==
    CASE e.ev = "begin" -> Nothing
      [] e.ev = "make" -> [cfg |-> e.cfg, prec |-> e.prec, always |-> e.always, plon |-> e.plon, sfon |-> e.sfon,
                           dop |-> e.dop, inp |-> <<>>, env |-> DefaultEnv, req |-> "none",
                           obs |-> <<>>, lsp |-> <<>>, since |-> FALSE]
      [] e.ev = "set" ->
         IF ~(e.ok /\ Admit(s, e)) THEN s
         ELSE [s EXCEPT !.inp = Over(e.given, @), !.env = Over(e.env, @), !.req = M!NextReq(@, e.req),
                        !.dop = IF e.dop = "none" THEN @ ELSE e.dop = "true",
                        !.obs = e.obs, !.since = @ \/ Trigger(e)]
      [] e.ev = "call" -> [s EXCEPT !.lsp = e.lsp, !.since = FALSE]
      [] OTHER -> s

-------------------------------------------------------------------------------
(* sizes of the current topology *)
NB(s) == Len(s.inp.bs_loc[1])
NU(s) == Len(s.inp.ut_loc[1])
BS(s) == Len(s.inp.ut_loc)
Links(s) == (1..BS(s)) \X (1..NB(s)) \X (1..NU(s))
LinkShape(s) == <<BS(s), NB(s), NU(s)>>
At(x, k) == x[k[1]][k[2]][k[3]]
LocB(s, k) == s.inp.bs_loc[k[1]][k[2]]
LocU(s, k) == s.inp.ut_loc[k[1]][k[3]]
Col(x, i) == [b \in 1..Len(x) |-> [u \in 1..Len(x[b]) |-> x[b][u][i]]]
Dbl(s) == s.prec = "double"
AngTol(s) == IF Dbl(s) THEN "1e-8" ELSE "3e-3"

(* the deterministic quantities of a scenario with the inputs of s, against an observation o *)
EnvOk(s, o) == \A k \in DOMAIN DefaultEnv : k \in DOMAIN o /\ FNear(o[k], s.env[k], 0, "1e-6")
InputsOk(s, o) ==
    /\ o.ut_loc = s.inp.ut_loc /\ o.bs_loc = s.inp.bs_loc
    /\ o.ut_orientations = s.inp.ut_orientations /\ o.bs_orientations = s.inp.bs_orientations
    /\ o.ut_velocities = s.inp.ut_velocities /\ o.indoor = s.inp.in_state
    /\ o.h_ut = Col(s.inp.ut_loc, 3) /\ o.h_bs = Col(s.inp.bs_loc, 3)
    /\ o.batch_size = BS(s) /\ o.num_bs = NB(s) /\ o.num_ut = NU(s)
DistanceOk(s, o) ==
    /\ \A q \in {o.d2, o.d3} : HasShape(q, LinkShape(s))
    /\ HasShape(o.dut, <<BS(s), NU(s), NU(s)>>)
    /\ \A k \in Links(s) :
         /\ FNear(At(o.d2, k), Dist2D(LocB(s, k), LocU(s, k)), "1e-2", "1e-6")
         /\ FNear(At(o.d3, k), SlantRange(LocB(s, k)[3], s.cfg.el), IF Dbl(s) THEN "1e-4" ELSE 4, "1e-6")
    /\ \A b \in 1..BS(s) : \A u, v \in 1..NU(s) :
         FNear(o.dut[b][u][v], Dist2D(s.inp.ut_loc[b][u], s.inp.ut_loc[b][v]), "1e-2", "1e-6")
AnglesOk(s, o) ==
    /\ \A q \in {o.aod, o.aoa, o.zod, o.zoa} : HasShape(q, LinkShape(s))
    /\ \A k \in Links(s) : LET b == LocB(s, k)  u == LocU(s, k) IN
         /\ FLe(AngDist(At(o.aod, k), Aod(b, u)), AngTol(s)) /\ FLe(AngDist(At(o.aoa, k), Aoa(b, u)), AngTol(s))
         /\ LET z == FAdd(AngTol(s), ZenithTol(b, u, IF Dbl(s) THEN "2.3e-16" ELSE "1.2e-7"))
            IN FNear(At(o.zod, k), Zod(b, u), z, 0) /\ FNear(At(o.zoa, k), Zoa(b, u), z, 0)
LossesOk(s, o) ==
    LET g == TLCEval(GasLoss(s.cfg.f, s.cfg.el, s.env))
        rel == IF Dbl(s) THEN "1e-7" ELSE "3e-4"
    IN /\ \A q \in {o.fspl, o.gas, o.scint, o.entry, o.basic} : HasShape(q, LinkShape(s))
       /\ \A k \in Links(s) :
            /\ FNear(At(o.fspl, k), FreeSpace(s.cfg.f, At(o.d3, k)), "2e-3", 0)
            /\ FNear(At(o.gas, k), g, "1e-6", rel) /\ ScintOk(At(o.scint, k), s.cfg.f, s.cfg.el, s.env, rel, IF Dbl(s) THEN "1e-12" ELSE "1e-5")
            /\ FEq(At(o.entry, k), EntryLoss)
StatsOk(s, o) ==
    /\ HasShape(o.mean, LinkShape(s) \o <<7>>) /\ HasShape(o.std, LinkShape(s) \o <<7>>)
    /\ \A k \in Links(s) : \A i \in 1..7 :
         /\ FNear(At(o.mean, k)[i], LspMean(s.cfg, At(o.los, k), i), "1e-9", "1e-6")
         /\ FNear(At(o.std, k)[i], LspStd(s.cfg, At(o.los, k), i), "1e-9", "1e-6")
         /\ FNear(At(o.zodoff, k), ZodOffset(At(o.los, k), At(o.d2, k)), "1e-5", 0)
Det(s, o, k) == FAdd(FreeSpace(s.cfg.f, At(o.d3, k)), Clutter(s.cfg, At(o.los, k)))
BasicOk(s, o) ==
    \A k \in Links(s) :
        LET x == FAbs(FSub(At(o.basic, k), Det(s, o, k)))
        IN FLe(x, FAdd("3e-3", IF s.sfon THEN FMul(8, ShadowStd(s.cfg, At(o.los, k))) ELSE 0))
LosOk(s, o) ==
    /\ HasShape(o.los, LinkShape(s))
    /\ \A k \in Links(s) : At(o.los, k) \in M!LosChoices(s.req, s.inp.in_state[k[1]][k[3]])
(* Number of links with equal entries *)
Equal(s, x, y) == Cardinality({k \in Links(s) : FEq(At(x, k), At(y, k))})
Redrawn(s, x, y) == 4 * Equal(s, x, y) <= Cardinality(Links(s)) /\ (Cardinality(Links(s)) = 1 => Equal(s, x, y) = 0)
===============================================================================
