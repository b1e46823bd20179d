SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Overrides = {"none", "tls-exporter", "tls-unique", "x-own.1"}
  ServerData = {"none", "same", "other", "short", "long", "empty"}
INVARIANTS BothHold Named NeverSilent
