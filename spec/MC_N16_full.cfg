CONSTANTS Quick = FALSE
INIT Init
NEXT Next
INVARIANT CrossFactor
INVARIANT Symmetric
INVARIANT SpatialFactor
