CONSTANT Rich = TRUE
SPECIFICATION Spec
INVARIANTS NotBoth BaseValid EmitState
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
