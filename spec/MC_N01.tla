-------------------------------- MODULE MC_N01 --------------------------------
(***************************************************************************)
(* Unbounded histories of the machine Scenario (its state is finite), and  *)
(* random histories of bounded length for the real models (TLC's           *)
(* simulation), together with a configuration.                             *)
(***************************************************************************)
EXTENDS Scenario, TLC, Json
CONSTANTS Depth, Calls, Levels
VARIABLES hist, cfg
all == <<always, known, req, indoor, los, stale, todo, fresh, since, out, hist, cfg>>

MCInit == Init /\ hist = <<>> /\ cfg = <<>>
MCNext == Next /\ UNCHANGED <<hist, cfg>>
MCSpec == MCInit /\ [][MCNext]_all /\ WF_all(Step /\ UNCHANGED <<hist, cfg>>)

-------------------------------------------------------------------------------
Cfgs == [scn : {"dur", "urb", "sur"}, dir : {"uplink", "downlink"}, f : {"2.0", "3.9", "20.5", "38"},
         el : {"10", "24", "50", "68", "90"}, prec : {"single", "double"}, always : BOOLEAN,
         pl : BOOLEAN, sf : BOOLEAN, level : Levels]
GenInit == /\ cfg \in Cfgs /\ always = cfg.always
           /\ known = {} /\ req = "none" /\ indoor = FALSE /\ los = FALSE
           /\ stale = Nodes /\ todo = <<>> /\ fresh = FALSE /\ since = FALSE /\ out = "none" /\ hist = <<>>

(* every table column, for samples of LoS states *)
ColInit == /\ cfg \in [scn : {"dur", "urb", "sur"}, dir : {"uplink", "downlink"}, f : {"1.9", "4.0", "19", "40"},
                       el : {"10", "14", "16", "26", "33", "44", "47", "56", "64", "67", "76", "84", "86", "90"}]
           /\ always = FALSE /\ known = {} /\ req = "none" /\ indoor = FALSE /\ los = FALSE
           /\ stale = Nodes /\ todo = <<>> /\ fresh = FALSE /\ since = FALSE /\ out = "none" /\ hist = <<>>
           /\ PrintT("CASE " \o ToJson(cfg))
Stop == FALSE /\ UNCHANGED all

(* the operations of the generated histories, drawn at random *)
One(S) == {RandomElement(S)}
Some == {{x} : x \in Inputs} \cup {Inputs \ {x} : x \in Inputs} \cup {{}}
        \cup {{x, y} : x, y \in Inputs} \cup {Triggers, Inputs \ Triggers}
Op(g, lr, env, dop, size) == [op |-> "set", given |-> g, los |-> lr, env |-> env, dop |-> dop, size |-> size]
Append1(o) == hist' = Append(hist, o) /\ UNCHANGED cfg
LosReq(k) == CASE k < 5 -> "none" [] k < 7 -> "true" [] OTHER -> "false"
(* environment and Doppler flag can only be given to the scenario itself *)
Scn == cfg.level = "scenario"
GenSet == \E g \in One(Some), k \in One(1..8), d \in One(1..6), e \in One(1..3) :
          LET r == LosReq(k)
              env == Scn /\ e = 1
              dop == CASE ~Scn -> "none" [] d = 1 -> "true" [] d = 2 -> "false" [] OTHER -> "none"
          IN Set(g, r, indoor, env) /\ Append1(Op(g, r, env, dop, "same"))
(* what an earlier rejected update gave is not retained *)
GenRest == LET g == Inputs \ hist[Len(hist)].given
           IN Set(g, "none", indoor, FALSE) /\ Append1(Op(g, "none", FALSE, "none", "same"))
(* environment or Doppler flag alone, of a model through its scenario *)
GenEnv == \E e \in One(BOOLEAN), d \in One({"true", "false", "none"}) :
          Set({}, "none", indoor, e) /\ Append1(Op({}, "none", e, d, "same"))
GenAll == \E k \in One(1..8), e \in One(1..3), sz \in One({"same", "new"}) :
          LET r == LosReq(k)  env == Scn /\ e = 1
          IN Set(Inputs, r, indoor, env) /\ Append1(Op(Inputs, r, env, "none", sz))
(* terminals which turn or change their speed: nothing may be redrawn *)
GenMotion == \E g \in One(SUBSET (Inputs \ Triggers)) :
             Set(g, "none", indoor, FALSE) /\ Append1(Op(g, "none", FALSE, "none", "same"))
GenCall == \E nt \in One(1..4) : Call /\ Append1([op |-> "call", nt |-> nt])
(* updates are run to completion, only operations count *)
GenOp == \E k \in One(1..10) :
           CASE ~Configured /\ Len(hist) = 1 /\ k < 6 -> GenRest
             [] ~Configured /\ (Len(hist) > 1 \/ k < 4) -> GenAll
             [] Configured /\ Calls /\ ~Scn /\ k < 5 -> GenCall
             [] Configured /\ Calls /\ ~Scn /\ k < 7 -> GenMotion
             [] k = 10 -> GenAll
             [] k = 9 -> GenEnv
             [] OTHER -> GenSet
GenNext == \/ Len(hist) < Depth /\ Idle /\ GenOp
           \/ ~Idle /\ Step /\ UNCHANGED <<hist, cfg>>
           \/ /\ Len(hist) = Depth /\ Idle /\ PrintT("CASE " \o ToJson([cfg |-> cfg, hist |-> hist]))
              /\ hist' = Append(hist, "end") /\ UNCHANGED <<vars, cfg>>
===============================================================================
