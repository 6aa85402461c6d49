CONSTANTS MaxLen = 4
 MaxOps = 3
INIT GenInit
NEXT GenNext
