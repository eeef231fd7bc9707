SPECIFICATION OSpec
CONSTANTS
  Rings <- ORings
  RwRules <- ORw
  DvRules <- ODv
  Lights <- OLights
  Inters <- OInters
  Types <- OTypes
  Lanes <- OLanes
  Points <- OPoints
  DvDesc <- ODvDesc
  Regions <- ORegions
INVARIANTS OneRingPerRule RingsValid
ACTION_CONSTRAINT OEmit
CHECK_DEADLOCK FALSE
