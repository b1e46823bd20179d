----------------------------- MODULE SecretModel -----------------------------
(* A SCRAM client looking for the secret to use: cached keys, salted password, password.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
\* what the callback does when asked for each: "no" (no answer), "right", "wrong" (another secret), "size"
\* (of the wrong size, or empty), "novalue" (says there is none), "error"
CONSTANTS Cached, Salted, Plain, Offer
VARIABLES c, s, p, offer, asked, used, res
vars == <<c, s, p, offer, asked, used, res>>
Init == c \in Cached /\ s \in Salted /\ p \in Plain /\ offer \in Offer /\ asked = <<>> /\ used = "" /\ res = "open"
None(a) == a \in {"no", "novalue", "size"}
Ask(x, a, must) ==
  /\ asked' = Append(asked, x)
  /\ IF a = "error" \/ (must /\ None(a)) THEN res' = "fail" /\ used' = used
     ELSE IF None(a) THEN res' = res /\ used' = used
     ELSE res' = (IF a = "right" THEN "ok" ELSE "fail") /\ used' = x
  /\ UNCHANGED <<c, s, p, offer>>
Next == \/ res = "open" /\ used = "" /\ asked = <<>> /\ Ask("cached", c, FALSE)
        \/ res = "open" /\ used = "" /\ asked = <<"cached">> /\ Ask("salted", s, FALSE)
        \/ res = "open" /\ used = "" /\ asked = <<"cached", "salted">> /\ Ask("plain", p, TRUE)
        \/ /\ res \in {"ok", "fail"}
           /\ PrintT(ToJson([c |-> c, s |-> s, p |-> p, offer |-> offer, asked |-> asked, used |-> used, res |-> res]))
           /\ res' = "printed" /\ UNCHANGED <<c, s, p, offer, asked, used>>
Spec == Init /\ [][Next]_vars
\* the strongest one there is is used, and what is weaker is not even asked for
Strongest == used # "" => /\ (used # "cached" => None(c)) /\ (used = "plain" => None(s))
                          /\ asked[Len(asked)] = used
NotBadlySized == (used = "cached" => c # "size") /\ (used = "salted" => s # "size") /\ (used = "plain" => p # "size")
Decided == res = "ok" => used # ""
=============================================================================
