SPECIFICATION CSpec
INVARIANT Rectangular
INVARIANT Shown
CHECK_DEADLOCK FALSE
