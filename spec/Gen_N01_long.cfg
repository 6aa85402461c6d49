CONSTANTS
  Depth = 16
  Calls = TRUE
  Levels = {"scenario", "model"}
INIT GenInit
NEXT GenNext
