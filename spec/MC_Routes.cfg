SPECIFICATION Spec
INVARIANTS Sound EmitState
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
