SPECIFICATION Spec
INVARIANT Back
INVARIANT Flags
INVARIANT Chosen
INVARIANT Shown
CHECK_DEADLOCK FALSE
