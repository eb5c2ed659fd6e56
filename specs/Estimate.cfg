SPECIFICATION Spec
INVARIANT Sane
INVARIANT FlaggedIgnored
INVARIANT Shown
CHECK_DEADLOCK FALSE
