SPECIFICATION OSpec
CONSTANT ResetsOnFault = TRUE
INVARIANT Right
ACTION_CONSTRAINT OEmit
CHECK_DEADLOCK FALSE
