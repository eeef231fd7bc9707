SPECIFICATION OSpec
INVARIANT Proper
ACTION_CONSTRAINT OEmit
CHECK_DEADLOCK FALSE
