SPECIFICATION Spec
INVARIANT Request
INVARIANT Unmixed
INVARIANT Coarser
INVARIANT Blanks
INVARIANT Shown
PROPERTY Still
CHECK_DEADLOCK FALSE
