SPECIFICATION Spec
INVARIANT EmitState
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
