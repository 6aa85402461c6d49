-------------------------------- MODULE MC_N08 --------------------------------
(***************************************************************************)
(* Attenuation as a machine over the contributions of a link: a loss is a  *)
(* set of tagged parts <<kind, b, n, u>>.  The machine draws the random    *)
(* parts, assembles the loss as switched and scales the link of every      *)
(* receiver-transmitter pair; each output must carry exactly the parts of  *)
(* its own link that the switches allow.                                   *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS MaxB, MaxN
VARIABLES pl, sf, up, dim, stage, basic, lsp, gain

Dims == [b : 1..MaxB, nb : 1..MaxN, nu : 1..MaxN]
Links(d) == (1..d.b) \X (1..d.nb) \X (1..d.nu)
Tag(kind, k) == <<kind, k[1], k[2], k[3]>>
Init == /\ pl \in BOOLEAN /\ sf \in BOOLEAN /\ up \in BOOLEAN /\ dim \in Dims /\ stage = "update"
        /\ basic = <<>> /\ lsp = <<>> /\ gain = <<>>
(* topology update: random part of the basic loss only with shadow fading *)
Update == /\ stage = "update" /\ stage' = "ready"
          /\ basic' = [k \in Links(dim) |-> {Tag("free", k), Tag("clutter", k)} \cup IF sf THEN {Tag("shadow", k)} ELSE {}]
          /\ lsp' = [k \in Links(dim) |-> Tag("sf", k)]
          /\ UNCHANGED <<pl, sf, up, dim, gain>>
(* realisation: pair <<b, rx, tx>> *)
Realise ==
    /\ stage = "ready" /\ stage' = "out"
    /\ LET NRX == IF up THEN dim.nb ELSE dim.nu NTX == IF up THEN dim.nu ELSE dim.nb
           Own(p) == IF up THEN <<p[1], p[2], p[3]>> ELSE <<p[1], p[3], p[2]>>
       IN gain' = [p \in (1..dim.b) \X (1..NRX) \X (1..NTX) |->
                     (IF pl THEN basic[Own(p)] \cup {Tag(x, Own(p)) : x \in {"gas", "scint", "entry"}} ELSE {})
                     \cup (IF sf THEN {lsp[Own(p)]} ELSE {})]
    /\ UNCHANGED <<pl, sf, up, dim, basic, lsp>>
Again == stage = "out" /\ stage' = "ready" /\ UNCHANGED <<pl, sf, up, dim, basic, lsp, gain>>
Next == Update \/ Realise \/ Again

OwnLinkOnly == stage = "out" => \A p \in DOMAIN gain : \A x \in gain[p] :
    <<x[2], x[3], x[4]>> = IF up THEN p ELSE <<p[1], p[3], p[2]>>
NothingRandomWhenOff == stage = "out" /\ ~sf => \A p \in DOMAIN gain : \A x \in gain[p] : x[1] \notin {"shadow", "sf"}
NoLossWhenOff == stage = "out" /\ ~pl => \A p \in DOMAIN gain : \A x \in gain[p] : x[1] = "sf"
AllPartsWhenOn == stage = "out" /\ pl => \A p \in DOMAIN gain : {"free", "clutter", "gas", "scint", "entry"} \subseteq {x[1] : x \in gain[p]}
===============================================================================
