CONSTANTS
  Tols <- MCTols
SPECIFICATION Spec
VIEW View
INVARIANTS SetMeaning Symmetric Undirected Monotone EmitState
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
