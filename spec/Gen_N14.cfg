CONSTANT Quick = TRUE
INIT GenInit
NEXT Next
