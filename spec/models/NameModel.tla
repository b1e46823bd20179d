------------------------------ MODULE NameModel ------------------------------
(* Every short byte string over representative bytes, as a mechanism name.                          *)
EXTENDS Mechname, TLC, Json
CONSTANTS Alphabet, MaxLen
VARIABLES n
Init == n = <<>>
Next == Len(n) < MaxLen /\ \E x \in Alphabet : n' = Append(n, x)
Spec == Init /\ [][Next]_n
P == ParseName(n)
Exactly == (P.r = "ok") = (n # <<>> /\ \A k \in DOMAIN n : NameByte(n[k]))
Empty == (P.r = "short") = (n = <<>>)
FirstBad == P.r = "invalid" => n[P.i + 1] = P.v /\ ~NameByte(P.v) /\ \A k \in 1..P.i : NameByte(n[k])
PrintInv == PrintT(ToJson([name |-> n]))
=============================================================================
