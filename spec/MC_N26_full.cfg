CONSTANTS Depth = 3
SPECIFICATION Spec
CONSTRAINT Small
INVARIANT Matches
PROPERTY Kept
