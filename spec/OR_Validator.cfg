SPECIFICATION OSpec
INVARIANT NotBoth
ACTION_CONSTRAINT OEmit
CHECK_DEADLOCK FALSE
