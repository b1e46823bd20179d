-------------------------------- MODULE Prep --------------------------------
(* SASLprep (RFC 4013) for the characters listed here.  The verdict for a     *)
(* string containing any other character is "dc": the specification does not  *)
(* say (scenario generators stay within the table).                           *)
EXTENDS Bytes

Spaces == {160, 5760, 8199, 8239, 8287, 12288} \cup 8192..8202          \* C.1.2 -> U+0020
Dropped == {173, 6150, 8204, 8205, 8288, 65279} \cup 65024..65039       \* B.1 -> nothing
\* compatibility mappings of NFKC
Compat == (170 :> <<97>>) @@ (178 :> <<50>>) @@ (8482 :> <<84, 77>>) @@ (8552 :> <<73, 88>>)
          @@ (64257 :> <<102, 105>>) @@ (65313 :> <<65>>) @@ (8491 :> <<197>>) @@ (8486 :> <<937>>)
          @@ (64337 :> <<1649>>)
\* canonical compositions <<base, combining>>
Composed == (<<101, 769>> :> 233) @@ (<<97, 776>> :> 228) @@ (<<65, 778>> :> 197)
Prohibited == 0..31 \cup {127} \cup 128..159 \cup {1757, 1807, 8232, 8233, 8206, 8207, 65529, 65533}
              \cup 8234..8238 \cup 57344..57400 \cup {65534, 65535} \cup 12272..12283
Unassigned == {545, 128512, 128513}                                      \* in Unicode 3.2
RandAL == {1488, 1489, 1490, 1575, 1576, 1649}
LCat == 65..90 \cup 97..122 \cup (192..255 \ {215, 247}) \cup {937, 945, 1072, 1073, 19968, 26085, 119070}
Neutral == (32..126 \ (65..90 \cup 97..122)) \cup {8364, 215, 247, 163}
Known == LCat \cup Neutral \cup RandAL \cup Prohibited \cup Unassigned \cup Spaces \cup Dropped
         \cup DOMAIN Compat \cup {769, 776, 778}
Marks == {769, 776, 778}

\* no mark is the base of a composition, so that pairs do not overlap
Compose(cs) ==
  LET pair(k) == k \in 1..(Len(cs) - 1) /\ <<cs[k], cs[k + 1]>> \in DOMAIN Composed
  IN Cat([k \in DOMAIN cs |-> CASE pair(k) -> <<Composed[<<cs[k], cs[k + 1]>>]>>
                                [] pair(k - 1) -> <<>>
                                [] OTHER -> <<cs[k]>>])

PrepOf(s) ==
  LET cs == Chars(s)
      plain == \A k \in DOMAIN s : s[k] \in 32..126
      mapped == Cat([k \in DOMAIN cs |-> CASE cs[k] \in Spaces -> <<32>>
                                           [] cs[k] \in Dropped -> <<>>
                                           [] cs[k] \in DOMAIN Compat -> Compat[cs[k]]
                                           [] OTHER -> <<cs[k]>>])
      norm == Compose(mapped)
      R == Range(norm)
      bidi == R \cap RandAL # {} =>
                /\ R \cap LCat = {}
                /\ norm[1] \in RandAL /\ norm[Len(norm)] \in RandAL
  IN CASE plain -> [v |-> "ok", s |-> s]
       [] ~(Range(cs) \subseteq Known) -> [v |-> "dc", s |-> <<>>]
       [] R \cap Marks # {} -> [v |-> "dc", s |-> <<>>]
       [] R \cap Prohibited # {} \/ R \cap Unassigned # {} \/ ~bidi -> [v |-> "bad", s |-> <<>>]
       [] OTHER -> [v |-> "ok", s |-> OfChars(norm)]
=============================================================================
