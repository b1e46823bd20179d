SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
INVARIANTS InOrder NothingWithoutLayer
CHECK_DEADLOCK FALSE
