------------------------------ MODULE ServeModel -----------------------------
(* A server with some configuration is asked for a mechanism by a client that may or may not bind    *)
(* to the channel: which requests start a mechanism, and which SCRAM exchanges complete.            *)
EXTENDS Select, TLC, Json
CONSTANTS Pool, MaxRegs, Asked, Flags
VARIABLES regs, sel, flag, res
vars == <<regs, sel, flag, res>>

PlusOf == "SCRAM-SHA-1" :> "SCRAM-SHA-1-PLUS" @@ "SCRAM-SHA-256" :> "SCRAM-SHA-256-PLUS" @@ "SCRAM-SHA-512" :> "SCRAM-SHA-512-PLUS"
Bare == DOMAIN PlusOf
NoDup(s) == \A j, k \in DOMAIN s : j # k => s[j] # s[k]
Init == /\ regs \in {s \in BoundedSeq(Pool, MaxRegs) : NoDup(s)}
        /\ sel \in Range(regs) \cup Asked
        /\ flag \in (IF sel \in Bare THEN Flags ELSE IF sel \in Plus THEN Flags \cup {"p"} ELSE {""})
        /\ res = "open"
CanStart == sel \in Range(Available(regs)) \ NoStart
\* who could have bound, and was told it can't, has been lied to if the server offers it
Fails == \/ sel \in Plus /\ flag \in {"n", "y"}
         \/ sel \in Bare /\ flag = "y" /\ PlusOf[sel] \in Range(regs)
Next == /\ res = "open"
        /\ res' = IF ~CanStart THEN "noshared" ELSE IF Fails THEN "fail" ELSE "ok"
        /\ PrintT(ToJson([regs |-> regs, sel |-> sel, flag |-> flag, res |-> res']))
        /\ UNCHANGED <<regs, sel, flag>>
Spec == Init /\ [][Next]_vars
NeverUnbound == res = "ok" /\ sel \in Plus => flag = "p"
NoDowngrade == res = "ok" /\ flag = "y" => PlusOf[sel] \notin Range(regs)
OnlyConfigured == res \in {"ok", "fail"} => sel \in Range(regs) /\ HasServer(sel)
InOrder == \A j, k \in DOMAIN Available(regs) : j < k =>
             (CHOOSE x \in DOMAIN regs : regs[x] = Available(regs)[j]) < (CHOOSE x \in DOMAIN regs : regs[x] = Available(regs)[k])
=============================================================================
