SPECIFICATION Spec
INVARIANT Partition
INVARIANT Redundancy
INVARIANT NoneBad
INVARIANT Counts
INVARIANT BlvecsOnce
INVARIANT Shown
CHECK_DEADLOCK FALSE
