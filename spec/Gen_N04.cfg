INIT GenInit
NEXT Next
