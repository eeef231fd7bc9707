SPECIFICATION OSpec
CONSTANTS
  Ids <- OIds
  RwIds <- ORwIds
  Types <- OTypes
  Points <- OPoints
INVARIANTS OneState
ACTION_CONSTRAINT OEmit
CHECK_DEADLOCK FALSE
