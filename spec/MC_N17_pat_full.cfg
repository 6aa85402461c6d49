CONSTANTS Quick = FALSE
INIT InitPat
NEXT NextPat
INVARIANT Nonnegative
INVARIANT Mirror
INVARIANT Flip
INVARIANT FrontToBack
INVARIANT SplitKeepsPower
