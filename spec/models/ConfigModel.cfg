SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"cred", "cred-authz", "default", "default-cb", "static", "static-cb"}
  Offers = {"SCRAM-SHA-512", "SCRAM-SHA-256", "SCRAM-SHA-1", "SCRAM-SHA-256-PLUS", "PLAIN", "LOGIN", "EXTERNAL", "ANONYMOUS", "XOAUTH2", "UNKNOWN", "X-BOTH"}
INVARIANTS Honoured NoPlus Order Some1
