SPECIFICATION Spec
INVARIANT TypeOK
INVARIANT ExtInside
INVARIANT SymOnlySquare
INVARIANT Shown
CHECK_DEADLOCK FALSE
