SPECIFICATION OSpec
INVARIANTS UniqueIds Served
ACTION_CONSTRAINT OEmit
CHECK_DEADLOCK FALSE
