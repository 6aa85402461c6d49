CONSTANTS Quick = TRUE
INIT Init
NEXT Next
INVARIANT Ascending
INVARIANT StartsAtZero
INVARIANT UsedFirst
INVARIANT Totals
INVARIANT Positive
