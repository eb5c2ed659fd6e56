SPECIFICATION Spec
INVARIANT OneEach
INVARIANT NewThere
INVARIANT Halves
INVARIANT Aligned
INVARIANT Shown
PROPERTY NothingLost
PROPERTY Untouched
PROPERTY Kept
CHECK_DEADLOCK FALSE
