CONSTANTS
  Depth = 16
  Calls = FALSE
  Levels = {"scenario"}
INIT GenInit
NEXT GenNext
