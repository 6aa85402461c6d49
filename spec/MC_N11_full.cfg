CONSTANTS Quick = FALSE
INIT Init
NEXT Next
INVARIANT UnitOffsets
INVARIANT Representative
INVARIANT Found
INVARIANT Constants
INVARIANT Distances
INVARIANT Permutes
