SPECIFICATION Spec
INVARIANTS TypeOK EmitState
PROPERTY Apart
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
