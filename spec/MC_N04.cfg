INIT Init
NEXT Next
INVARIANT Probability
INVARIANT ProbGrows
INVARIANT ClutterFalls
INVARIANT Spreads
INVARIANT VanishingOnly
INVARIANT Clusters
INVARIANT Correlations
INVARIANT Distances
INVARIANT Nearest
INVARIANT Reciprocal
