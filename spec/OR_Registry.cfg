SPECIFICATION OSpec
CONSTANTS Types <- OTypes
INVARIANTS OneKind
ACTION_CONSTRAINT OEmit
CHECK_DEADLOCK FALSE
