SPECIFICATION Spec
INVARIANTS Guaranteed EmitState
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
