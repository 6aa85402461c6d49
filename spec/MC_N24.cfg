CONSTANTS MaxLen = 3
 MaxOps = 3
SPECIFICATION Spec
INVARIANT Complete
INVARIANT NothingLost
INVARIANT AtMostOnce
INVARIANT InForce
INVARIANT Linked
INVARIANT Idempotent
INVARIANT RightPlace
PROPERTY NeverUndone
PROPERTY LinkStays
