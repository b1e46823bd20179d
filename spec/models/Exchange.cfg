SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Mechs = {"PLAIN", "ANONYMOUS", "EXTERNAL", "LOGIN", "XOAUTH2", "OAUTHBEARER", "SCRAM", "GSSAPI1", "GSSAPI2", "GSSAPI3"}
  MaxDist = 1
  Dists = {"none", "bad64", "enc", "dec", "has", "info", "validation", "w-bytes", "w-int", "w-mixed", "w-err", "w-zero", "garbled", "silent", "refusing"}
  Vals = {"fin", "none"}
  Vias = {"step", "step64", "mix"}
INVARIANTS
  Progress Short Ended Delivered ValidatedOnce OutcomeOnlyIfValidated Blamed NoOutcomeIfRejected
PROPERTIES
  Terminates
