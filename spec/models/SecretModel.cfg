SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Cached = {"no", "right", "wrong", "size", "novalue", "error"}
  Salted = {"no", "right", "wrong", "size", "novalue", "error"}
  Plain = {"no", "right", "wrong", "novalue", "error"}
  Offer = {"take", "ignore", "error", "none"}
INVARIANTS Strongest NotBadlySized Decided
