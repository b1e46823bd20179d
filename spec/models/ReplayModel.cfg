SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 2
  MaxOdd = 1
INVARIANTS
  Agreement Injective ClientAgreement
