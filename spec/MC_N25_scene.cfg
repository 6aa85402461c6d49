CONSTANTS Depth = 0
INIT SceneInit
NEXT Stop
INVARIANT ReadsBack
INVARIANT Readable
INVARIANT Orthonormal
INVARIANT RightHanded
INVARIANT AlongField
