----------------------------- MODULE ConfigModel -----------------------------
(* Configurations made from credentials, and the default one: what a client does on any offer.      *)
EXTENDS Select, TLC, Json
CONSTANTS Kinds, Offers
VARIABLES kind, offers, done
Init == kind \in Kinds /\ offers \in SUBSET Offers /\ done = FALSE
List == CASE kind = "cred" -> CredList(FALSE) [] kind = "cred-authz" -> CredList(TRUE) [] kind \in {"static", "static-cb"} -> StaticList [] OTHER -> DefaultList
Cb == kind \in {"default-cb", "static-cb"}
Allowed == ClientChoice(List, SetToSeq(offers), Cb, None)
Next == /\ ~done /\ done' = TRUE
        /\ PrintT(ToJson([kind |-> kind, offers |-> SetToSeq(offers), allowed |-> SetToSeq(Allowed)]))
        /\ UNCHANGED <<kind, offers>>
Spec == Init /\ [][Next]_<<kind, offers, done>>
\* credentials never leave in a mechanism that can't carry all of them
Honoured == kind \in {"cred", "cred-authz"} => \A m \in Allowed :
  /\ m \in {"SCRAM-SHA-512", "SCRAM-SHA-256", "SCRAM-SHA-1", "PLAIN", "LOGIN"}
  /\ m = "LOGIN" => kind = "cred"
NoPlus == Allowed \cap Plus = {}
\* stronger first: SCRAM, then PLAIN, then LOGIN
Order == kind \in {"cred", "cred-authz"} =>
  /\ (offers \cap {"SCRAM-SHA-512", "SCRAM-SHA-256", "SCRAM-SHA-1"} # {} => Allowed \subseteq {"SCRAM-SHA-512", "SCRAM-SHA-256", "SCRAM-SHA-1"})
  /\ ("PLAIN" \in offers => "LOGIN" \notin Allowed)
Some1 == offers \cap Range(List) \notin {{}, {"X-BOTH"}} => Allowed # {}
=============================================================================
