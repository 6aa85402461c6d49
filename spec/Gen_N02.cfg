CONSTANTS
  Depth = 10
  Calls = TRUE
  Levels = {"model"}
INIT GenInit
NEXT GenNext
