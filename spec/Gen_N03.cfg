CONSTANTS
  Depth = 8
  Calls = FALSE
  Levels = {"scenario"}
INIT GenInit
NEXT GenNext
