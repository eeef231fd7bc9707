SPECIFICATION OSpec
CONSTANTS Lanes <- OLanes
ACTION_CONSTRAINT OEmit
CHECK_DEADLOCK FALSE
