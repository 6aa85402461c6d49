CONSTANTS Quick = FALSE
INIT Init
NEXT Next
INVARIANT MarksRight
INVARIANT AllMarked
INVARIANT RangeOk
INVARIANT Grid
INVARIANT Dc
