SPECIFICATION Spec
INVARIANT TypeOK
INVARIANT Flat
INVARIANT Shown
PROPERTY Apart
PROPERTY OnlyThat
CHECK_DEADLOCK FALSE
