CONSTANTS Quick = TRUE
INIT InitArr
NEXT Next
INVARIANT AsSpecified
INVARIANT Centred
INVARIANT Balanced
INVARIANT Distinct
INVARIANT Wraps
