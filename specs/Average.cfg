SPECIFICATION Spec
INVARIANT AvgLaws
INVARIANT Shown
CHECK_DEADLOCK FALSE
