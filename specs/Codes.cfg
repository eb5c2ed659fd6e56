SPECIFICATION Spec
INVARIANT Lossless
INVARIANT Width
INVARIANT Shown
CHECK_DEADLOCK FALSE
