CONSTANT Quick = TRUE
INIT Init
NEXT Next
INVARIANT Inverse
INVARIANT Isometric
INVARIANT Matrix
INVARIANT PowerKept
INVARIANT Orthogonal
INVARIANT Displaced
INVARIANT Unitary
