CONSTANTS Quick = TRUE
INIT GenInit
NEXT NextPat
