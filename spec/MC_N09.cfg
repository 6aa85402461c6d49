CONSTANTS MaxB = 3
 MaxN = 4
INIT Init
NEXT Next
INVARIANT Aligned
INVARIANT ExchangedInUplink
