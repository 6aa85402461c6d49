CONSTANT Quick = TRUE
INIT Init
NEXT Next
INVARIANT OnlySatellites
INVARIANT Degrees
INVARIANT RowPower
INVARIANT NoneIsIdentity
INVARIANT Turns
INVARIANT Back
