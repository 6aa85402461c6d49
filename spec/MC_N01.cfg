CONSTANTS
  Depth = 0
  Calls = FALSE
  Levels = {}
SPECIFICATION MCSpec
INVARIANTS Coherent Ordered NoSpurious
PROPERTIES RejectedChangesNothing QuietUpdates Quiesces
CHECK_DEADLOCK FALSE
