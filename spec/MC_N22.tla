-------------------------------- MODULE MC_N22 --------------------------------
(* Exhaustive: all histories of bounded length.  Generation: configurations and plans for real models. *)
EXTENDS Randomness, TLC, Json
CONSTANTS Ops, PlanLen
VARIABLE cfg
MCInit == Init /\ cfg = <<>>
MCNext == Next /\ UNCHANGED cfg

Cfgs == [scn : {"dur", "urb", "sur"}, dir : {"uplink", "downlink"}, f : {"2.2", "3.6", "19.5", "30"}, el : {"20", "35", "52"},
         always : BOOLEAN, los : {"drawn", "false", "true"}, heights : {"sat", "haps"}, pl : BOOLEAN, sf : BOOLEAN, nb : 1..2,
         compiled : {"none", "call", "link"}, prec : {"double", "single"}]
One(S) == {RandomElement(S)}
(* a plan: operations of the first epoch, of which the others repeat a prefix *)
GenInit == cfg \in Cfgs /\ hist = <<>> /\ gen = 0 /\ opc = 0 /\ fns = 0 /\ seeded = 0 /\ log = 0 /\ epochs = 0
GenNext ==
    /\ UNCHANGED <<cfg, gen, opc, fns, seeded, log>>
    /\ \/ /\ epochs = 0 /\ Len(hist) < PlanLen
          /\ \E k \in One(1..6) : hist' = Append(hist, CASE Len(hist) = 0 -> "start"
                                                         \* a traced function holds the large-scale parameters of its time
                                                         [] k = 1 /\ ~(cfg.compiled = "call" /\ \E i \in DOMAIN hist : hist[i] = "call") -> "update"
                                                         [] k \in 2..3 \/ cfg.compiled = "none" -> "eager"
                                                         [] OTHER -> cfg.compiled)
          /\ UNCHANGED epochs
       \/ /\ epochs = 0 /\ Len(hist) = PlanLen /\ epochs' = 1 /\ UNCHANGED hist
          /\ PrintT("CASE " \o ToJson([cfg |-> cfg, plan |-> hist]))
===============================================================================
