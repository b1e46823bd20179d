SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Pool = {"SCRAM-SHA-256", "SCRAM-SHA-256-PLUS", "SCRAM-SHA-1", "PLAIN", "LOGIN", "EXTERNAL", "XOAUTH2", "X-CLIENTONLY", "X-SERVERONLY", "X-LOW", "PLAI", "X-NOSTART", "X-BOTH"}
  MaxRegs = 2
  Extra = {"UNKNOWN", "PLAI", "SCRAM-SHA-256-PLUS", "SCRAM-SHA-25", "PLAINX"}
  Prefs = {"default", "reversed", "nothing", "notplain", "ties"}
INVARIANTS Correct Sound
