SPECIFICATION Spec
CONSTANTS Lanes <- MCLanes
INVARIANTS RingsSound ProvSound IdsSound EmitState
PROPERTY RefusedKeeps
PROPERTY BaseOk
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
