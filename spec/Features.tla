------------------------------ MODULE Features ------------------------------
(* What configurations hold, and which mechanism a client or server of theirs starts, when the library *)
(* was built with some of its features only: the mechanisms whose features are there, and no others, in *)
(* the documented order. Judges the reports of the crate "features", one for each set of features.      *)
EXTENDS Select, Json, IOUtils

Reports == ndJsonDeserialize(IOEnv.REPORTS)

FeatureOf(m) ==
  CASE m \in {"SCRAM-SHA-512", "SCRAM-SHA-256"} -> "scram-sha-2"
    [] m = "SCRAM-SHA-1" -> "scram-sha-1"
    [] m = "PLAIN" -> "plain"
    [] m = "LOGIN" -> "login"
    [] m = "ANONYMOUS" -> "anonymous"
    [] m = "EXTERNAL" -> "external"
    [] m = "XOAUTH2" -> "xoauth2"
    [] m = "OAUTHBEARER" -> "oauthbearer"
    [] OTHER -> "none"

Full(kind) == CASE kind = "cred" -> CredList(FALSE) [] kind = "authz" -> CredList(TRUE) [] OTHER -> DefaultList
Holds(kind, features) == SelectSeq(Full(kind), LAMBDA m : FeatureOf(m) \in features)

\* the static registry has no order
SameList(static, a, b) == IF static THEN Range(a) = Range(b) /\ Len(a) = Len(b) ELSE a = b

BadTry(holds, t) ==
  LET allowed == ClientChoice(holds, t.offers, FALSE, None) IN
  \/ IF t.got = <<>> THEN allowed # {} ELSE t.got[1] \notin allowed
  \/ Range(t.served) # Range(t.offers) \cap Range(holds)

Bad(r) ==
  LET features == Range(r.features)
  IN UNION {LET c == r.configs[x]
                holds == Holds(c.kind, features)
                static == "registry_static" \in features /\ c.kind = "default"
            IN (IF SameList(static, c.avail, holds) THEN {} ELSE {"avail"})
               \cup (IF \E y \in DOMAIN c.tried : BadTry(holds, c.tried[y]) THEN {"start"} ELSE {})
            : x \in DOMAIN r.configs}

VARIABLE n
Init == n \in DOMAIN Reports
Next == /\ n \in DOMAIN Reports
        /\ \A rule \in Bad(Reports[n]) :
             PrintT(ToJson([dev |-> TRUE, id |-> "features", i |-> n, s |-> 0, rule |-> rule, e |-> ToString(Reports[n].features), mech |-> "", st |-> ""]))
        /\ n' = 0
Spec == Init /\ [][Next]_n
=============================================================================
