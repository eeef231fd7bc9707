SPECIFICATION OSpec
INVARIANTS UniqueIds
ACTION_CONSTRAINT OEmit
CHECK_DEADLOCK FALSE
