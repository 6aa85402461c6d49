CONSTANTS
  Depth = 16
  Calls = TRUE
  Levels = {"model"}
INIT GenInit
NEXT GenNext
