SPECIFICATION Spec
VIEW View
INVARIANTS PathsOkInv RoutesMeetInv
CHECK_DEADLOCK FALSE
