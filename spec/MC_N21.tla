-------------------------------- MODULE MC_N21 --------------------------------
(***************************************************************************)
(* Precision spreading through a simulation: every object is built in some *)
(* order after those it is made from, in the precision requested of it, if *)
(* its parts agree.  If all requests are effectively the same, everything  *)
(* can be built and has it; an object is never built from mixed parts.     *)
(***************************************************************************)
EXTENDS Precision, TLC, Json
VARIABLES default, req, built
Reqs == {"single", "double", "none"}
Init == /\ default \in {"single", "double"} /\ built = <<>>
        /\ req \in [Sources \cup {"scenario"} -> Reqs]
P(o) == Effective(req[IF o \in DOMAIN req THEN o ELSE "scenario"], default)
Build == /\ \E o \in Objects \ DOMAIN built :
              /\ From(o) \subseteq DOMAIN built
              /\ \A x \in From(o) : built[x] = RealType(P(o))
              /\ built' = [x \in DOMAIN built \cup {o} |-> IF x = o THEN RealType(P(o)) ELSE built[x]]
         /\ UNCHANGED <<default, req>>
Next == Build
Uniform == \A o \in DOMAIN req : P(o) = P("scenario")
Consistent == \A o \in DOMAIN built : built[o] = RealType(P(o)) /\ \A x \in From(o) : built[x] = built[o]
Complete == (Uniform /\ ~ENABLED Build) => DOMAIN built = Objects
SingleByDefault == (default = "single" /\ \A o \in DOMAIN req : req[o] = "none") =>
                      \A o \in DOMAIN built : built[o] = "float32"

-------------------------------------------------------------------------------
Cases == [kind : {"pipeline"}, scn : {"dur", "urb", "sur"}, dir : {"uplink", "downlink"}, f : {"2.2", "3.5", "20", "30.1"},
          el : {"12.3", "47", "90"}, req : {"single", "double", "none", "config"}, pattern : {"omni", "38.901", "dlp", "aperture"},
          how : {"python", "tensor"}, heights : {"sat", "haps"}, los : {"drawn", "true", "false"}, always : BOOLEAN]
         \cup [kind : {"accuracy"}, scn : {"dur", "urb", "sur"}, dir : {"uplink", "downlink"}, f : {"2.2", "3.5", "20", "30.1"},
          el : {"12.3", "47", "90"}, pattern : {"omni", "38.901", "dlp"}, how : {"python", "tensor"}, req : {"double", "config"}]
GenInit == default = 0 /\ built = 0 /\ req \in Cases /\ PrintT("CASE " \o ToJson(req))
Stop == FALSE /\ UNCHANGED <<default, req, built>>
===============================================================================
