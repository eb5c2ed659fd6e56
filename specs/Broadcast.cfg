SPECIFICATION Spec
INVARIANT Monotone
INVARIANT Inside
INVARIANT MadeSeparable
INVARIANT Settled
INVARIANT NoNeed
INVARIANT Shown
CHECK_DEADLOCK FALSE
