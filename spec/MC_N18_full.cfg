CONSTANTS Quick = FALSE
INIT Init
NEXT Next
INVARIANT Square
INVARIANT OnGrid
INVARIANT Sharp
INVARIANT Looks
INVARIANT BsLooksDown
INVARIANT Rigid
INVARIANT DefaultsTotal
