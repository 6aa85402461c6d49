------------------------------- MODULE Admission -------------------------------
(***************************************************************************)
(* What may be created: channel models, antenna arrays, topologies.        *)
(* A model request m has fields dir, hz, el and ut, bs: the arrays, with   *)
(* fields kind ("panel", "antenna", "array" or another object) and hz.     *)
(***************************************************************************)
EXTENDS Tables

CarrierOk(hz) == \/ FLe("1.9e9", hz) /\ FLe(hz, "4e9")
                 \/ FLe("19e9", hz) /\ FLe(hz, "40e9")
ElevationOk(el) == FLe(10, el) /\ FLe(el, 90)
DirectionOk(d) == d \in {"uplink", "downlink"}
ArrayKinds == {"panel", "antenna", "array"}
ArrayOk(a, hz) == a.kind \in ArrayKinds /\ FEq(a.hz, hz)

ModelOk(m) == /\ DirectionOk(m.dir) /\ CarrierOk(m.hz) /\ ElevationOk(m.el)
              /\ ArrayOk(m.ut, m.hz) /\ ArrayOk(m.bs, m.hz)

ArrayPatterns == {"omni", "38.901", "aperture", "dlp"}
Pols == {"single", "dual"}
PolTypes(pol) == CASE pol = "single" -> {"V", "H"} [] pol = "dual" -> {"VH", "cross"} [] OTHER -> {}
(* rel: panel spacing compared with the panel size, in both dimensions *)
PanelOk(a) == /\ a.pattern \in ArrayPatterns /\ a.pol \in Pols /\ a.ptype \in PolTypes(a.pol)
              /\ a.vrel \in {"default", "above"} /\ a.hrel \in {"default", "above"}
TopologyNames == {"dur", "urb", "sur"}
===============================================================================
