SPECIFICATION OSpec
INVARIANTS OneSide DefaultOngoing OneDefault
ACTION_CONSTRAINT OEmit
CHECK_DEADLOCK FALSE
