SPECIFICATION Spec
CONSTANTS
  Legs = {1, 2, 3, 4}
  MaxFaults = 1
  Wants <- AllWants
  Forged <- AllForged
INVARIANTS ClientOnlyAccepted ServerOnlyAccepted Supported Agreement Strongest NoForgery Possible Short
CHECK_DEADLOCK FALSE
