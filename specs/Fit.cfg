SPECIFICATION Spec
INVARIANT Pairs
INVARIANT Turned
INVARIANT Warned
INVARIANT First
INVARIANT Shown
PROPERTY Refused
PROPERTY Asking
CHECK_DEADLOCK FALSE
