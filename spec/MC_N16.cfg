CONSTANTS Quick = TRUE
INIT Init
NEXT Next
INVARIANT CrossFactor
INVARIANT Symmetric
INVARIANT SpatialFactor
