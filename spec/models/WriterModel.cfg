SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Lens = {4, 5, 8}
  MaxInt = 1
  Sizes = {1, 2, 3, 8}
INVARIANTS Whole Bounded
PROPERTIES Ends
