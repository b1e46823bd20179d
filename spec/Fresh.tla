-------------------------------- MODULE Fresh --------------------------------
(* Random values drawn by many sessions, in several threads and processes, checked against each     *)
(* other: sequences of strings, by kind ("client", "server": nonces of either side, "nonce": of both;  *)
(* "salt": fabricated salts, base64).                                                                 *)
EXTENDS Bytes, FiniteSets, Json, IOUtils

Draws == JsonDeserialize(IOEnv.DRAWS)
Kinds == {"client", "server", "nonce", "salt"}

\* 24 characters of a nonce, 8 bytes of a salt
Full(k) == IF k = "salt" THEN 12 ELSE 24
\* the base64 padding says nothing
End(k, v) == IF k = "salt" THEN Len(v) - 2 ELSE Len(v)

Bad(k) ==
  LET d == IF k = "nonce" THEN Draws["client"] \o Draws["server"] ELSE Draws[k]
      n == Len(d)
      vs == {d[x] : x \in 1..n}
      first == {SubSeq(d[x], 1, 10) : x \in 1..n}
      end == {SubSeq(d[x], End(k, d[x]) - 9, End(k, d[x])) : x \in 1..n}
      at(x) == {SubSeq(d[y], x, x) : y \in 1..n}
      \* the characters there are at any two places
      len == CHOOSE l \in {End(k, v) : v \in vs} : \A v \in vs : l <= End(k, v)
      some == 1..1000
      codes == TLCEval([y \in some |-> TLCEval(B(d[y]))])
      both(x, z) == {codes[y][x] * 256 + codes[y][z] : y \in some}
  IN
  IF n = 0 THEN {"none"}
  ELSE IF \E v \in vs : Len(v) < Full(k) THEN {"short"}
  ELSE (IF Cardinality(vs) = n THEN {} ELSE {"repeated"})
       \* no part of it may be predictable
       \cup (IF Cardinality(first) = n THEN {} ELSE {"prefix"})
       \cup (IF Cardinality(end) = n THEN {} ELSE {"suffix"})
       \cup (IF n < 2000 \/ \A x \in 1..(Full(k) - 2) : Cardinality(at(x)) >= 40 THEN {} ELSE {"poor"})
       \* nor depend on another
       \cup (IF n < 2000 \/ \A x, z \in 1..len : x < z => Cardinality(both(x, z)) >= 400 THEN {} ELSE {"dependent"})

VARIABLE kind
Init == kind \in Kinds
Next == /\ kind \in Kinds
        /\ \A b \in Bad(kind) : PrintT(ToJson([dev |-> TRUE, id |-> "draws", i |-> 0, s |-> 0, rule |-> "fresh", e |-> b, mech |-> kind, st |-> ""]))
        /\ kind' = "done"
Spec == Init /\ [][Next]_kind
=============================================================================
