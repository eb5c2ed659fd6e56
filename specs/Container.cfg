SPECIFICATION Spec
VIEW view
INVARIANT TypeOK NoFileNoContent HeldImpliesExists
PROPERTY RefusedKeeps ReadsKeep OnlyAddressed ReadsTruth
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
