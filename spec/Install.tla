------------------------------- MODULE Install -------------------------------
(***************************************************************************)
(* Integration of OpenNTN into an installed Sionna: the channel module of  *)
(* Sionna gets one more import line, and a link to the package.            *)
(* A file is a sequence of lines.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Import811 == "from . import tr38811"
Import901 == "from . import tr38901"

Imports(f, x) == {i \in DOMAIN f : f[i] = x}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
InsertAfter(f, i, x) == SubSeq(f, 1, i) \o <<x>> \o SubSeq(f, i + 1, Len(f))
Without(f, x) == SelectSeq(f, LAMBDA l : l # x)

(* what integrating makes of a file *)
Integrated(f) == IF Imports(f, Import811) # {} \/ Imports(f, Import901) = {} THEN f
                 ELSE InsertAfter(f, First(Imports(f, Import901)), Import811)

(* nothing a user had is lost, and the order is kept *)
Keeps(f, g) == Without(f, Import811) = Without(g, Import811)
===============================================================================
