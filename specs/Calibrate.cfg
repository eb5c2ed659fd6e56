SPECIFICATION Spec
INVARIANT Uncalibrated
INVARIANT Closure
INVARIANT Shown
PROPERTY Own
PROPERTY Refused
CHECK_DEADLOCK FALSE
