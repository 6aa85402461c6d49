CONSTANT MaxN = 4
INIT GenInit
NEXT Next
