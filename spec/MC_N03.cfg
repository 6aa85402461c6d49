CONSTANTS
  Depth = 0
  Calls = FALSE
  Levels = {}
SPECIFICATION MCSpec
INVARIANTS LosRule
PROPERTIES RequestPersists LosOnlyByTrigger
CHECK_DEADLOCK FALSE
