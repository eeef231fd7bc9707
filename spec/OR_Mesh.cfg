SPECIFICATION OSpec
ACTION_CONSTRAINT OEmit
CHECK_DEADLOCK FALSE
