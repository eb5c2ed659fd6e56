SPECIFICATION Spec
VIEW view
PROPERTY Conserved Bystanders Idempotent
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
