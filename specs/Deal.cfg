SPECIFICATION Spec
INVARIANT Fair
INVARIANT Last
INVARIANT Once
INVARIANT All
INVARIANT Shown
CHECK_DEADLOCK FALSE
