SPECIFICATION Spec
INVARIANT Fresh
CHECK_DEADLOCK FALSE
