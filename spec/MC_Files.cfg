SPECIFICATION Spec
INVARIANTS Tree EmitState
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
