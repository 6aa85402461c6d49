CONSTANTS Depth = 7
INIT Init
NEXT Next
INVARIANT SpreadInForce
INVARIANT DelaysRight
INVARIANT Normalised
INVARIANT KFactor
INVARIANT SpreadOk
INVARIANT Correlation
INVARIANT Sectors
PROPERTY CallUsesLatest
