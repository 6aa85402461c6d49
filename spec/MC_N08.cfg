CONSTANTS MaxB = 3
 MaxN = 4
INIT Init
NEXT Next
INVARIANT OwnLinkOnly
INVARIANT NothingRandomWhenOff
INVARIANT NoLossWhenOff
INVARIANT AllPartsWhenOn
