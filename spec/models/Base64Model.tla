----------------------------- MODULE Base64Model -----------------------------
(* Every short text over representative characters, as the input of step64.                          *)
EXTENDS Bytes, TLC, Json
CONSTANTS Alphabet, MaxLen
VARIABLES s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E x \in Alphabet : s' = Append(s, x)
Spec == Init /\ [][Next]_s
\* accepted is exactly what encoding results in
Canonical == IsB64(s) => ToB64(UnB64(s)) = s
Length == IsB64(s) => ((Len(s) % 4) = 0 /\ Len(UnB64(s)) <= ((Len(s) \div 4) * 3))
RoundTrip == UnB64(ToB64(s)) = s /\ IsB64(ToB64(s))
PrintInv == Len(s) < 2 \/ PrintT(ToJson([s |-> s, ok |-> IsB64(s)]))
=============================================================================
