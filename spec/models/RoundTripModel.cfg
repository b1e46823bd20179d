SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Mechs = {"PLAIN", "LOGIN", "ANONYMOUS", "EXTERNAL", "XOAUTH2", "OAUTHBEARER", "SCRAM-SHA-256"}
  MaxLen = 2
INVARIANTS
  Faithful Honoured Refused Understood
