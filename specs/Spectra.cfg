SPECIFICATION Spec
INVARIANT Rectangular
INVARIANT Shown
CHECK_DEADLOCK FALSE
