CONSTANTS Depth = 0
INIT LinkInit
NEXT Stop
INVARIANT OfdmHeard
INVARIANT Superpose
INVARIANT OneRequest
