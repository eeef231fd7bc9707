SPECIFICATION Spec
INVARIANTS OneSide ConfluentEquiv OngoingMutual DefaultOngoing OneDefault ComponentsPartition EmitState
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
