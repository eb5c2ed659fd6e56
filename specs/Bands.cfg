SPECIFICATION Spec
INVARIANT Whole
INVARIANT Adjacent
INVARIANT Back
INVARIANT Shown
CHECK_DEADLOCK FALSE
