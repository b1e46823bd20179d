SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 2
  Kinds = {"need", "maybe", "action"}
INVARIANTS FirstAnswer Once NoEffect Lazy ActionOnce Required Optional Handled Unchanged PrintInv
