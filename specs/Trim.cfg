SPECIFICATION Spec
INVARIANT SameLength
INVARIANT Aligned
INVARIANT Shared
INVARIANT Idempotent
INVARIANT Shown
CHECK_DEADLOCK FALSE
