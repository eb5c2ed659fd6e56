SPECIFICATION Spec
INVARIANT Own
INVARIANT Filed
INVARIANT Within
INVARIANT Shown
PROPERTY Refused
PROPERTY OnlyAsked
CHECK_DEADLOCK FALSE
