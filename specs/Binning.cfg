SPECIFICATION Spec
INVARIANT Once
INVARIANT None
INVARIANT Mirror
INVARIANT DelayOnce
INVARIANT Shown
CHECK_DEADLOCK FALSE
