SPECIFICATION Spec
INVARIANTS UniqueIds OneParent Contiguous EmitState
PROPERTY GrowOnly
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
