SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Pool = {"SCRAM-SHA-256", "SCRAM-SHA-256-PLUS", "SCRAM-SHA-1", "SCRAM-SHA-1-PLUS", "SCRAM-SHA-512-PLUS", "PLAIN", "LOGIN", "ANONYMOUS", "EXTERNAL", "XOAUTH2", "OAUTHBEARER", "X-CLIENTONLY", "X-SERVERONLY", "PLAI", "X-NOSTART", "X-BOTH"}
  MaxRegs = 2
  Asked = {"SCRAM-SHA-256", "SCRAM-SHA-512", "PLAIN", "PLAI", "PLAINX", "X-CLIENTONLY"}
  Flags = {"n", "y"}
INVARIANTS NeverUnbound NoDowngrade OnlyConfigured InOrder
