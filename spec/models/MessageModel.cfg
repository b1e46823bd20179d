SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"plain", "login", "text", "xoauth2", "oauthbearer", "cfirst", "cfirst-plus", "cfinal", "sfirst", "sfinal", "json"}
  MaxEdits = 1
INVARIANTS SeedsGood Parts PrintInv
