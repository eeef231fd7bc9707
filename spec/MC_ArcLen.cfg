SPECIFICATION Spec
CONSTANT ResetsOnFault = TRUE
INVARIANTS Right EmitState
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
