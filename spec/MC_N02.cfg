CONSTANTS
  Depth = 0
  Calls = FALSE
  Levels = {}
SPECIFICATION MCSpec
INVARIANTS OneDraw Coherent
PROPERTIES RealisationPolicy NeverStale
CHECK_DEADLOCK FALSE
