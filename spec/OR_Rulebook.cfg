SPECIFICATION OSpec
CONSTANTS
  Ids <- OIds
  Types <- OTypes
  Queries <- OQueries
INVARIANTS UniqueIds
ACTION_CONSTRAINT OEmit
CHECK_DEADLOCK FALSE
