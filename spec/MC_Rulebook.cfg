SPECIFICATION Spec
CONSTANTS
  Ids <- MCIds
  Types <- MCTypes
  Queries <- MCQueries
  MaxRules = 2
INVARIANTS UniqueIds FindSound EmitState
PROPERTY Atomic
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
