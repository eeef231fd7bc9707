SPECIFICATION Spec
INVARIANTS Legal EmitState
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
