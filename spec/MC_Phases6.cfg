SPECIFICATION Spec6
CONSTANTS
  Rings <- MCRings
  RwRules <- MCRw
  DvRules <- MCDv
  Lights <- MCLights
  Inters <- MCInters
  Types <- MCTypes
  Lanes <- MCLanes
  Points <- MCPoints
  DvDesc <- MCDvDesc
  Regions <- MCRegions
INVARIANTS RingsValid OneRingPerRule Agree LegalManual EmitState
PROPERTY RejectedKeeps
ACTION_CONSTRAINT Emit
VIEW MView
CHECK_DEADLOCK FALSE
CONSTRAINT Bound6
