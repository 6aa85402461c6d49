CONSTANTS Depth = 7
SPECIFICATION Spec
CONSTRAINT Small
INVARIANT Current
PROPERTY Kept
PROPERTY ShowsChangeNothing
