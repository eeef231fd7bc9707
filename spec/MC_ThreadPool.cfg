SPECIFICATION Spec
CONSTANTS
  Tasks = {1, 2, 3}
  N = 2
  Main = 4
  Child <- MCChild
  Canceller <- MCCanceller
INVARIANT AbstractSafe
PROPERTIES Refines RefinesOnce Finishes
