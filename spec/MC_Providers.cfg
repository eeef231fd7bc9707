SPECIFICATION Spec
CONSTANTS
  Ids <- MCIds
  RwIds <- MCRwIds
  Types <- MCTypes
  Points <- MCPoints
INVARIANTS OneState EmitState
PROPERTY SetLegal
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
