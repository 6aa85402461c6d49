CONSTANTS Quick = FALSE
INIT Init
NEXT Next
INVARIANT IsHermitian
INVARIANT HasUnitDiagonal
INVARIANT IsPsd
INVARIANT IsToeplitz
INVARIANT ExpPivots
INVARIANT Decays
INVARIANT Endfire
INVARIANT Wrapped
INVARIANT Inverse
