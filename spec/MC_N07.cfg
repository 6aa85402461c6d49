CONSTANTS Quick = TRUE
INIT Init
NEXT Next
INVARIANT Theorems
