INIT GenInit
NEXT Stop
