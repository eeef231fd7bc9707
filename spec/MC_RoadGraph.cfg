SPECIFICATION Spec
VIEW View
INVARIANTS Partition Covers EndsInOneNode Finest Reversible
CHECK_DEADLOCK FALSE
