------------------------------ MODULE Precision ------------------------------
(***************************************************************************)
(* Numerical precision.  A request is "single", "double" or "none"; the    *)
(* library default is single.  Objects are derived from others.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Effective(req, default) == IF req = "none" THEN default ELSE req
RealType(p) == IF p = "double" THEN "float64" ELSE "float32"
ComplexType(p) == IF p = "double" THEN "complex128" ELSE "complex64"
Exact == {"int32", "int64", "bool"}
Types(p) == {RealType(p), ComplexType(p)} \cup Exact

(* the objects of a simulation and what they are made from *)
Objects == {"ut_array", "bs_array", "topology", "scenario", "lsp", "rays", "coefficients", "channel"}
From(o) == CASE o = "scenario" -> {"ut_array", "bs_array", "topology"}
             [] o = "lsp" -> {"scenario"}
             [] o = "rays" -> {"scenario", "lsp"}
             [] o = "coefficients" -> {"scenario", "rays", "lsp", "ut_array", "bs_array"}
             [] o = "channel" -> {"coefficients", "lsp", "scenario"}
             [] OTHER -> {}
Sources == {o \in Objects : From(o) = {}}
===============================================================================
