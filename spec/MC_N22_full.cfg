CONSTANTS Functions = {"f", "g"}  Seeds = {1, 2}  Depth = 4  Epochs = 2  Partial = TRUE  Frozen = FALSE  Ops = {}  PlanLen = 0
INIT MCInit
NEXT MCNext
INVARIANT Fresh Reproducible SeedsMatter
