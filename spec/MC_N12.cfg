CONSTANT MaxN = 4
INIT Init
NEXT Next
INVARIANT PathCount
INVARIANT Ascending
INVARIANT FirstAtZero
INVARIANT Partition
INVARIANT StrongSplit
