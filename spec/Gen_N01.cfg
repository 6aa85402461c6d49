CONSTANTS
  Depth = 8
  Calls = TRUE
  Levels = {"scenario", "model"}
INIT GenInit
NEXT GenNext
