SPECIFICATION Spec
CONSTANTS
  BulbIds <- MCB
  GroupIds <- MCG
  LightIds <- MCL
INVARIANTS BookIds UniqueInBook Owned EmitState
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
