SPECIFICATION Spec
INVARIANT Distinct
INVARIANT Unwritten
INVARIANT Shown
PROPERTY OrderFree
PROPERTY OneArg
PROPERTY NoEffect
PROPERTY Kept
PROPERTY Whole
PROPERTY Guarded
PROPERTY Grows
PROPERTY OnlyNamed
CHECK_DEADLOCK FALSE
