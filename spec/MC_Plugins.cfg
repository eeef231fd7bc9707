SPECIFICATION Spec
INVARIANTS UniqueIds Served EmitState
PROPERTIES ErrorsKeep Latest
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
