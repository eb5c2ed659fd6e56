SPECIFICATION FSpec
INVARIANT Sound
INVARIANT Complete
INVARIANT Symmetric
INVARIANT Clean
INVARIANT Shown
CHECK_DEADLOCK FALSE
