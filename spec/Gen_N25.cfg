CONSTANTS Depth = 0
INIT GenInit
NEXT Stop
