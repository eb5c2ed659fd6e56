SPECIFICATION Spec
INVARIANT Sums
INVARIANT InRange
INVARIANT Free
INVARIANT Shown
CHECK_DEADLOCK FALSE
