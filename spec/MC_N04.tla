-------------------------------- MODULE MC_N04 --------------------------------
(* Tables: sanity of every column (MC), all configurations as test cases (Gen) *)
EXTENDS Lsp, Json
VARIABLE c

Columns == [scn : ScnNames, dir : Directions, f : {2, 28}, el : {10 * i : i \in 1..9}, los : BOOLEAN]
Init == c \in Columns
Next == FALSE /\ UNCHANGED c

P(name) == Par(c, c.los, name)
In(lo, x, hi) == FLe(lo, x) /\ FLe(x, hi)
Probability == In(0, Par(c, TRUE, "LoS_p"), 1)
ProbGrows == c.el < 90 => FLe(Par(c, TRUE, "LoS_p"), Par([c EXCEPT !.el = @ + 10], TRUE, "LoS_p"))
(* clutter loss falls with the elevation (within 0.5 dB in the S band suburban column) *)
ClutterFalls == c.el < 90 => FLe(Par([c EXCEPT !.el = @ + 10], FALSE, "CL"), FAdd("0.5", Par(c, FALSE, "CL")))
(* quantities of the propagation path alone do not depend on the direction of the link *)
Reciprocal == \A n \in {"LoS_p", "CL", "sigmaSF", "muDS", "sigmaDS", "muK", "sigmaK", "muXPR", "sigmaXPR", "rTau",
                         "numClusters", "zeta", "cDS"} :
                 (n # "CL" \/ ~c.los) =>
                 FEq(P(n), Par([c EXCEPT !.dir = IF @ = "uplink" THEN "downlink" ELSE "uplink"], c.los, n))
Spreads == \A i \in 1..7 : FLe(0, LspStd(c, c.los, i)) /\ FLt(LspStd(c, c.los, i), 10)
VanishingOnly == \A i \in 1..7 : FIsFinite(LspMean(c, c.los, i)) \/
                    (i \in {2, 7} /\ Vanishing(LspMean(c, c.los, i)) /\ FEq(LspStd(c, c.los, i), 0))
Clusters == NumClusters(c, c.los) \in 2..6 /\ FLt(1, P("rTau"))
Correlations == /\ \A i, j \in 1..7 : In(-1, CrossCorr(c, c.los, i, j), 1)
                /\ LET L == CrossCholesky(c, c.los) IN \A i \in 1..7 : FLt(0, L[i][i])
Distances == \A i \in 1..7 : FLt(0, CorrDist(c, c.los, i))
Nearest == \A d \in {"-4.9", "-3", "0", "2.2", "4.9"} :
              LET e == FAdd(c.el, d) IN (FLe(10, e) /\ FLe(e, 90)) => ElIdx(e) = c.el \div 10
Theorems == Probability /\ ProbGrows /\ ClutterFalls /\ Spreads /\ VanishingOnly /\ Clusters
            /\ Correlations /\ Distances /\ Nearest

-------------------------------------------------------------------------------
(* elevations: every column at its centre and next to both of its limits *)
Elevs == {"10", "14.9", "15.1", "20", "24.8", "25.2", "30", "34.99", "35.01", "40", "44.6", "45.3", "50", "54.9",
          "55.2", "60", "64.7", "65.4", "70", "74.9", "75.1", "80", "84.9", "85.1", "90"}
GenInit == c \in [scn : ScnNames, dir : Directions, f : {"1.9", "2.4", "4", "19", "28", "40"}, el : Elevs,
                  prec : {"single", "double"}] /\ PrintT("CASE " \o ToJson(c))
===============================================================================
