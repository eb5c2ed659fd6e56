SPECIFICATION Spec
INVARIANT Bounded
INVARIANT OnceEach
INVARIANT OnlyFailed
INVARIANT Exact
INVARIANT Persistent
INVARIANT Raised
INVARIANT Shown
PROPERTY Ends
CHECK_DEADLOCK FALSE
