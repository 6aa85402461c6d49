CONSTANTS Functions = {}  Seeds = {}  Depth = 0  Epochs = 0  Partial = FALSE  Frozen = FALSE  Ops = {}  PlanLen = 8
INIT GenInit
NEXT GenNext
