------------------------------ MODULE Mechname ------------------------------
(* Mechanism names: which byte strings are names, how others are refused, and what equal means.   *)
EXTENDS Bytes

NameByte(x) == x \in 65..90 \cup 48..57 \cup {45, 95}
\* [r, i, v]: "ok", "short", or "invalid" with offset and value of the first offending byte
ParseName(b) ==
  LET bad == {k \in DOMAIN b : ~NameByte(b[k])}
  IN IF b = <<>> THEN [r |-> "short", i |-> 0, v |-> 0]
     ELSE IF bad = {} THEN [r |-> "ok", i |-> 0, v |-> 0]
     ELSE [r |-> "invalid", i |-> Min(bad) - 1, v |-> b[Min(bad)]]

\* one way of parsing b, as reported, agrees
ParsedAs(b, got) ==
  LET w == ParseName(b)
  IN /\ got.r = w.r /\ got.i = w.i /\ got.v = w.v
     /\ w.r = "ok" => got.bytes = b /\ got.str = b /\ got.disp = b /\ got.deref = b

NameDevs(ev) ==
  IF ev.panic THEN {"panic"}
  ELSE (IF ParsedAs(ev.in, ev.parse) /\ ParsedAs(ev.in, ev.try) THEN {} ELSE {"name"})
       \cup (IF \A j \in DOMAIN ev.trys : ParsedAs(ev.in, ev.trys[j]) THEN {} ELSE {"name"})
\* every comparison offered means: the same bytes
EqDevs(ev) == IF \A j \in DOMAIN ev.eqs : ev.eqs[j] = (ev.a = ev.b) THEN {} ELSE {"nameeq"}
=============================================================================
