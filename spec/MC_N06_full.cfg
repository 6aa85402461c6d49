CONSTANTS Quick = FALSE
INIT Init
NEXT Next
INVARIANT Theorems
