CONSTANTS Depth = 12
SPECIFICATION Spec
CONSTRAINT Small
INVARIANT Current
PROPERTY Kept
PROPERTY ShowsChangeNothing
