SPECIFICATION Spec
INVARIANT Own
INVARIANT Exact
INVARIANT All
INVARIANT Alike
INVARIANT Shown
CHECK_DEADLOCK FALSE
