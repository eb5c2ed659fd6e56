SPECIFICATION Spec
INVARIANT TilingIsUnion
INVARIANT NoDuplicates
INVARIANT HolesRefused
INVARIANT SelectionComposes
CHECK_DEADLOCK FALSE
