CONSTANTS Depth = 2
SPECIFICATION Spec
CONSTRAINT Small
INVARIANT Matches
PROPERTY Kept
