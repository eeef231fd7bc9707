SPECIFICATION Spec
CONSTANTS Types <- MCTypes
INVARIANTS OneKind AllDistinct EmitState
PROPERTY Grows
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
