SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet = {0, 32, 44, 45, 46, 47, 48, 57, 58, 64, 65, 90, 91, 94, 95, 96, 97, 122, 127, 128, 195, 255}
  MaxLen = 2
INVARIANTS Exactly Empty FirstBad PrintInv
