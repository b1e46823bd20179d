SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet = {65, 81, 66, 61, 43, 47, 45, 10, 32}
  MaxLen = 4
INVARIANTS Canonical Length RoundTrip PrintInv
