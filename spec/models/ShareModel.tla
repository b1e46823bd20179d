----------------------------- MODULE ShareModel ------------------------------
(* N exchanges over shared configurations, their steps interleaved in any way; each may be cut off  *)
(* (abandoned) or spoilt (fed garbage) at any point.  What one exchange does depends on its own      *)
(* history only.                                                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Steps, MaxBad
X == 1..N
VARIABLES pos, fate, order
vars == <<pos, fate, order>>
Init == pos = [y \in X |-> 0] /\ fate = [y \in X |-> "open"] /\ order = <<>>
Act(x, w) == order' = Append(order, <<x, w>>)
Go(x) == /\ fate[x] = "open" /\ pos' = [pos EXCEPT ![x] = @ + 1] /\ Act(x, "go")
         /\ fate' = [fate EXCEPT ![x] = IF pos[x] + 1 = Steps THEN "ok" ELSE @]
Bad == Cardinality({x \in X : fate[x] \in {"left", "spoilt"}})
\* the first step, made without input, can't be spoilt
Spoil(x) == /\ fate[x] = "open" /\ pos[x] \in 1..(Steps - 1) /\ Bad < MaxBad
            /\ fate' = [fate EXCEPT ![x] = "spoilt"] /\ Act(x, "spoil") /\ UNCHANGED pos
Leave(x) == /\ fate[x] = "open" /\ Bad < MaxBad /\ fate' = [fate EXCEPT ![x] = "left"] /\ Act(x, "leave") /\ UNCHANGED pos
Emit == /\ \A x \in X : fate[x] \in {"ok", "spoilt", "left"}
         /\ PrintT(ToJson([order |-> order, fate |-> fate]))
         /\ fate' = [y \in X |-> "printed"] /\ UNCHANGED <<pos, order>>
Next == Emit \/ (\E x \in X : (Go(x) \/ Spoil(x) \/ Leave(x)))
Spec == Init /\ [][Next]_vars
\* an exchange left alone completes, whatever the others do
Mine(x) == {j \in DOMAIN order : order[j][1] = x}
Alone == \A x \in X : fate[x] # "printed" => ((fate[x] = "ok") = (Cardinality(Mine(x)) = Steps /\ (\A j \in Mine(x) : order[j][2] = "go")))
=============================================================================
