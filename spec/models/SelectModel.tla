----------------------------- MODULE SelectModel -----------------------------
(* Choosing a mechanism: a client looks at its enabled mechanisms one after the other and keeps    *)
(* the one it likes best.  Checked: whatever the order, the result is one of those module Select    *)
(* allows (ClientChoice).  Each configuration is printed with the mechanisms allowed.               *)
EXTENDS Select, TLC, Json
CONSTANTS Pool, MaxRegs, Extra, Prefs

\* preferences: the default, and tables
Table(p) == CASE p = "default" -> None
              [] p = "reversed" -> Some(<<<<"X-LOW", 900>>, <<"EXTERNAL", 800>>, <<"PLAIN", 700>>, <<"LOGIN", 650>>,
                                           <<"SCRAM-SHA-1", 600>>, <<"XOAUTH2", 500>>, <<"SCRAM-SHA-256", 400>>,
                                           <<"SCRAM-SHA-256-PLUS", 300>>, <<"X-CLIENTONLY", 200>>>>)
              [] p = "nothing" -> Some([j \in 1..Len(SetToSeq(Pool)) |-> <<SetToSeq(Pool)[j], 0 - 1>>])
              [] p = "notplain" -> Some(<<<<"PLAIN", 0 - 1>>, <<"LOGIN", 0 - 5>>, <<"X-LOW", 5>>, <<"EXTERNAL", 3>>>>)
              [] p = "ties" -> Some(<<<<"PLAIN", 7>>, <<"SCRAM-SHA-1", 7>>, <<"EXTERNAL", 7>>>>)

VARIABLES regs, offers, cb, pref, best, at
vars == <<regs, offers, cb, pref, best, at>>

NoDup(s) == \A j, k \in DOMAIN s : j # k => s[j] # s[k]
Init == /\ regs \in {s \in BoundedSeq(Pool, MaxRegs) : NoDup(s)}
        /\ offers \in {a \cup e : a \in SUBSET Range(regs), e \in {{}} \cup {{x} : x \in Extra \ Range(regs)}}
        /\ cb \in BOOLEAN /\ pref \in Prefs
        /\ best = "" /\ at = 0

Cand(m) == m \in offers /\ HasClient(m) /\ (m \in NeedsCb => cb) /\ (m = "X-BOTH" => "PLAIN" \in offers)
R(m) == Rank(Table(pref), m)
Look == /\ at < Len(regs)
        /\ at' = at + 1
        /\ LET m == regs[at + 1] IN
             \/ /\ ~Cand(m) \/ (best = "" /\ R(m) < 0) \/ (best # "" /\ R(m) <= R(best))
                /\ best' = best
             \/ /\ Cand(m) /\ ((best = "" /\ R(m) >= 0) \/ (best # "" /\ R(m) >= R(best)))
                /\ best' = m
        /\ UNCHANGED <<regs, offers, cb, pref>>
Allowed == ClientChoice(regs, SetToSeq(offers), cb, Table(pref))
Emit == /\ at = Len(regs) /\ at' = at + 1
         /\ PrintT(ToJson([regs |-> regs, offers |-> SetToSeq(offers), cb |-> cb, prefer |-> Table(pref),
                           allowed |-> SetToSeq(Allowed)]))
         /\ UNCHANGED <<regs, offers, cb, pref, best>>
Next == Look \/ Emit
Spec == Init /\ [][Next]_vars

Correct == at >= Len(regs) => IF best = "" THEN Allowed = {} ELSE best \in Allowed
Sound == \A m \in Allowed : m \in Range(regs) /\ m \in offers /\ HasClient(m) /\ (m \in Plus => cb)
=============================================================================
