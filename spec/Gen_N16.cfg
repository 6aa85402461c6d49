CONSTANTS Quick = TRUE
INIT GenInit
NEXT Next
