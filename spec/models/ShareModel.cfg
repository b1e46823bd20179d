SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 2
  Steps = 5
  MaxBad = 1
INVARIANTS Alone
