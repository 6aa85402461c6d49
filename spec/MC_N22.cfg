CONSTANTS Functions = {"f", "g"}  Seeds = {1, 2}  Depth = 3  Epochs = 2  Partial = FALSE  Frozen = FALSE  Ops = {}  PlanLen = 0
INIT MCInit
NEXT MCNext
INVARIANT Fresh Reproducible SeedsMatter
