SPECIFICATION Spec
INVARIANT Partition
INVARIANT RowsDistinct
INVARIANT Shown
CHECK_DEADLOCK FALSE
