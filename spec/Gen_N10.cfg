CONSTANTS Quick = TRUE
INIT GenInit
NEXT GenNext
