SPECIFICATION OSpec
CONSTANTS
  BulbIds <- OB
  GroupIds <- OG
  LightIds <- OL
INVARIANTS BookIds
ACTION_CONSTRAINT OEmit
CHECK_DEADLOCK FALSE
