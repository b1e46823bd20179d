SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxFaults = 1
  Family = "auth"
INVARIANTS
  ServerConvinced ClientConvinced ProofOnlyForOwnNonce Bound NoDowngrade NoReplay Complete
