------------------------------- MODULE Scenario -------------------------------
(***************************************************************************)
(* A channel model as a machine over its history: topology updates that    *)
(* give some of the inputs, and channel realisations.                      *)
(*                                                                         *)
(* An update stores what it is given and recomputes derived quantities,    *)
(* one after the other, following a plan.  A quantity is stale if one of   *)
(* the values it depends on has changed since it was computed.  One link   *)
(* is followed in detail: its indoor state, the LoS request and its LoS    *)
(* state.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Inputs == {"ut_loc", "bs_loc", "ut_orientations", "bs_orientations", "ut_velocities", "in_state"}
Triggers == {"ut_loc", "bs_loc", "in_state"}      \* and a LoS request

(* Derived quantities and what they are computed from *)
Nodes == {"geo", "los", "stats", "basic", "gas", "scint", "corr", "lsp"}
Random == {"los", "basic", "lsp"}
Uses(n) == CASE n = "geo"   -> {"ut_loc", "bs_loc"}
             [] n = "los"   -> {"geo", "in_state", "req"}
             [] n = "stats" -> {"los", "geo"}
             [] n = "basic" -> {"los", "geo"}
             [] n = "gas"   -> {"env", "geo"}
             [] n = "scint" -> {"env", "geo"}
             [] n = "corr"  -> {"los", "geo"}
             [] n = "lsp"   -> {"stats", "corr"}
RECURSIVE Dependents(_)
Dependents(X) == LET D == X \cup {n \in Nodes : Uses(n) \cap X # {}}
                 IN IF D = X THEN X \cap Nodes ELSE Dependents(D)

FullPlan == <<"geo", "los", "stats", "basic", "gas", "scint", "corr", "lsp">>
EnvPlan == <<"gas", "scint">>

(* The rules of an update: admission, trigger, effect on the request *)
Admitted(known, given) == Inputs \subseteq (known \cup given)
IsTrigger(given, lr) == given \cap Triggers # {} \/ lr # "none"
NextReq(req, lr) == IF lr = "none" THEN req ELSE lr
(* The LoS states a link may take; none is decided by chance *)
LosChoices(req, indoor) == IF indoor THEN {FALSE}
                           ELSE IF req = "none" THEN BOOLEAN ELSE {req = "true"}

-------------------------------------------------------------------------------
VARIABLES always,    \* policy: LSPs drawn anew by every realisation
          known,     \* inputs given so far (those of accepted updates)
          req,       \* last LoS request: "none", "true" or "false"
          indoor, los,
          stale, todo,
          fresh,     \* the held LSPs have not been used by a realisation
          since,     \* a trigger was given since the last realisation
          out        \* outcome of the last operation
vars == <<always, known, req, indoor, los, stale, todo, fresh, since, out>>

Configured == known = Inputs
Idle == todo = <<>>

Init == /\ always \in BOOLEAN
        /\ known = {} /\ req = "none" /\ indoor = FALSE /\ los = FALSE
        /\ stale = Nodes /\ todo = <<>> /\ fresh = FALSE /\ since = FALSE /\ out = "none"

(* Set: an update giving the inputs `given`, a LoS request, indoor state of the link, environment *)
Set(given, lr, ind, env) ==
    /\ Idle
    /\ UNCHANGED <<always, los, fresh>>
    /\ IF ~Admitted(known, given)
       THEN out' = "rejected" /\ UNCHANGED <<known, req, indoor, stale, todo, since>>
       ELSE LET src == given \cup (IF lr = "none" THEN {} ELSE {"req"}) \cup (IF env THEN {"env"} ELSE {})
                trig == IsTrigger(given, lr)
            IN /\ out' = "accepted"
               /\ known' = Inputs
               /\ req' = NextReq(req, lr)
               /\ indoor' = IF "in_state" \in given THEN ind ELSE indoor
               /\ stale' = stale \cup Dependents(src)
               /\ todo' = IF trig THEN FullPlan ELSE IF env THEN EnvPlan ELSE <<>>
               /\ since' = (since \/ trig)

(* Step: the next quantity of the plan is computed *)
Step ==
    /\ ~Idle
    /\ todo' = Tail(todo)
    /\ UNCHANGED <<always, known, req, indoor, since, out>>
    /\ IF Head(todo) = "lsp" /\ always
       THEN UNCHANGED <<stale, los, fresh>>
       ELSE /\ stale' = (stale \cup Dependents({Head(todo)})) \ {Head(todo)}
            /\ IF Head(todo) = "los" THEN los' \in LosChoices(req, indoor) ELSE los' = los
            /\ fresh' = (fresh \/ Head(todo) = "lsp")

(* Call: a channel realisation *)
Call ==
    /\ Idle /\ Configured
    /\ UNCHANGED <<always, known, req, indoor, los, todo>>
    /\ stale' = IF always THEN stale \ {"lsp"} ELSE stale
    /\ fresh' = FALSE /\ since' = FALSE
    /\ out' = IF always \/ fresh THEN "new LSPs" ELSE "held LSPs"

Next == \/ \E g \in SUBSET Inputs, lr \in {"none", "true", "false"}, ind, env \in BOOLEAN : Set(g, lr, ind, env)
        \/ Step \/ Call
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

-------------------------------------------------------------------------------
(* N01 *)
Held == IF always THEN Nodes \ {"lsp"} ELSE Nodes
(* between operations everything derived belongs to the latest inputs *)
Coherent == (Idle /\ Configured) => stale \cap Held = {}
(* nothing is computed from a stale quantity *)
Ordered == ~Idle => Uses(Head(todo)) \cap stale = {}
(* a random quantity is only redrawn if it has to be *)
NoSpurious == (~Idle /\ Head(todo) \in Random) => Head(todo) \in stale \/ (Head(todo) = "lsp" /\ always)
RejectedChangesNothing == [][out' = "rejected" => UNCHANGED <<known, req, indoor, los, stale, todo, fresh, since>>]_vars
(* updates of orientations, velocities and environment redraw nothing *)
QuietUpdates == [][\A g \in SUBSET (Inputs \ Triggers), env \in BOOLEAN :
                    (Set(g, "none", indoor, env) /\ Configured) => stale' \cap Random = stale \cap Random]_vars
Quiesces == []<>Idle

(* N02 *)
OneDraw == (Idle /\ Configured /\ ~always) => (fresh <=> since)
RealisationPolicy == [][Call => out' = (IF always \/ since THEN "new LSPs" ELSE "held LSPs")]_vars
NeverStale == [][Call => {"stats", "corr", "los"} \cap stale = {}]_vars

(* N03 *)
LosRule == (Idle /\ Configured) => /\ los => ~indoor
                                   /\ (req # "none" /\ ~indoor) => (los <=> req = "true")
RequestPersists == [][req # "none" => req' # "none"]_vars
LosOnlyByTrigger == [][los' # los => ~Idle]_vars
===============================================================================
