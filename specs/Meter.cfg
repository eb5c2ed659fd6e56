SPECIFICATION Spec
INVARIANT Together
INVARIANT Laws
INVARIANT Shown
PROPERTY Kept
PROPERTY Apart
CHECK_DEADLOCK FALSE
