CONSTANTS
  Depth = 0
  Calls = FALSE
  Levels = {}
INIT ColInit
NEXT Stop
