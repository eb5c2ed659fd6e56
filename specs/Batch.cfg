SPECIFICATION Spec
INVARIANT BatchFree
INVARIANT OrderFree
INVARIANT Shown
PROPERTY Confined
PROPERTY Exact
CHECK_DEADLOCK FALSE
