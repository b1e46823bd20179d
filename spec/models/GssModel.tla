------------------------------ MODULE GssModel -------------------------------
(* GSSAPI between a client and a server, each with the layers its user accepts and a GSS-API       *)
(* context that provides certain facilities after a certain number of tokens.  Disturbances: the    *)
(* network alters, repeats or reflects a message; a peer lists or selects layers it must not; a     *)
(* call of the library fails.  Every behaviour with at most MaxFaults disturbances is explored and  *)
(* printed.                                                                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Legs, MaxFaults, Wants, Forged

Layers == {1, 2, 4}           \* none, integrity, confidentiality
Flags == SUBSET {"m", "c", "i"}     \* mutual authentication, confidentiality, integrity
\* what a user accepts: a set of layers, or no answer, which accepts all
Answers == {<<w>> : w \in Wants} \cup {<<>>}
Accepts(a) == IF a = <<>> THEN Layers ELSE a[1]
Sure(f) == {1} \cup (IF "i" \in f THEN {2} ELSE {}) \cup (IF f = {"m", "c", "i"} THEN {4} ELSE {})
May(f) == {1} \cup (IF "i" \in f THEN {2} ELSE {}) \cup (IF "c" \in f THEN {4} ELSE {})

AllWants == SUBSET Layers
F(n, b, g) == [name |-> n, bits |-> b, good |-> g]
AllForged == {F("0", {}, TRUE), F("1", {1}, TRUE), F("2", {2}, TRUE), F("3", {1, 2}, TRUE), F("4", {4}, TRUE), F("5", {1, 4}, TRUE),
              F("6", {2, 4}, TRUE), F("7", Layers, TRUE), F("9", {}, FALSE), F("short", {}, FALSE), F("long", {}, FALSE), F("none", {}, FALSE)}

VARIABLES legs, cwant, swant, cflags, sflags, cfail, sfail,      \* the configuration
          c, s,           \* the sessions: [st, n (library calls made), layers accepted or listed, layer]
          turn, msg,      \* whose step is next, with which message
          ops, faults, amb, ends
vars == <<legs, cwant, swant, cflags, sflags, cfail, sfail, c, s, turn, msg, ops, faults, amb, ends>>

NoMsg == [k |-> "none", j |-> 0, bits |-> {}, good |-> TRUE]
Tok(j) == [k |-> "tok", j |-> j, bits |-> {}, good |-> TRUE]
Empty == [k |-> "empty", j |-> 0, bits |-> {}, good |-> TRUE]
Offer(bits, good) == [k |-> "offer", j |-> 0, bits |-> bits, good |-> good]
Select(bits, good) == [k |-> "select", j |-> 0, bits |-> bits, good |-> good]
Bad == [k |-> "bad", j |-> 0, bits |-> {}, good |-> FALSE]
New == [st |-> "init", n |-> 0, acc |-> {}, layer |-> 0]

CFails == {"", "cred", "name", "init1", "init2", "wrap"}
SFails == {"", "cred", "accept1", "accept2", "wrap", "info"}
Cost(x) == IF x = "" THEN 0 ELSE 1
Init == /\ legs \in Legs /\ cwant \in Answers /\ swant \in Answers
        /\ cflags \in Flags
        \* usually both ends see the same facilities
        /\ sflags \in SUBSET cflags
        /\ sflags = cflags \/ (cwant = <<>> /\ swant = <<>>)
        /\ cfail \in CFails /\ sfail \in SFails
        /\ Cost(cfail) + Cost(sfail) <= MaxFaults
        /\ faults = Cost(cfail) + Cost(sfail)
        /\ c = New /\ s = New /\ turn = "c" /\ msg = NoMsg /\ ops = <<>> /\ amb = FALSE
        /\ ends = [c |-> "open", s |-> "open"]
conf == <<legs, cwant, swant, cflags, sflags, cfail, sfail>>

Op(what) == Append(ops, [s |-> turn, op |-> what, m |-> msg.k])
Fail(me) == /\ ends' = [ends EXCEPT ![me] = "fail"] /\ turn' = "end" /\ UNCHANGED <<msg, amb>>
            /\ IF me = "c" THEN c' = [c EXCEPT !.st = "fail"] /\ UNCHANGED s ELSE s' = [s EXCEPT !.st = "fail"] /\ UNCHANGED c
Send(m, to) == msg' = m /\ turn' = to
TokenOr(j, other) == IF j <= legs THEN Tok(j) ELSE other

\* the client makes library call n and goes on
CFlags == cflags
ClientEstablish(n) ==
  LET done == 2 * n > legs
      out == TokenOr(2 * n - 1, Empty)
      acc == Accepts(cwant)
  IN IF cfail = (IF n = 1 THEN "init1" ELSE "init2") /\ n <= 2 THEN Fail("c")
     ELSE IF ~done THEN c' = [c EXCEPT !.st = "ctx", !.n = n] /\ Send(out, "s") /\ UNCHANGED <<s, amb, ends>>
     ELSE IF acc # {} /\ acc \cap May(CFlags) = {} THEN Fail("c")
     ELSE \/ /\ c' = [c EXCEPT !.st = "layer", !.n = n, !.acc = acc] /\ Send(out, "s") /\ UNCHANGED <<s, ends>>
             /\ amb' = (amb \/ acc \cap Sure(CFlags) = {})
          \* what can't be relied on may be refused, and so may a user who accepts nothing
          \/ /\ acc \cap Sure(CFlags) = {}
             /\ amb' = TRUE /\ ends' = [ends EXCEPT !["c"] = "fail"] /\ turn' = "end" /\ c' = [c EXCEPT !.st = "fail"]
             /\ UNCHANGED <<s, msg>>

ClientStep ==
  CASE c.st = "init" -> IF cfail \in {"cred", "name"} THEN Fail("c") ELSE ClientEstablish(1)
    [] c.st = "ctx" -> IF msg = Tok(2 * c.n) THEN ClientEstablish(c.n + 1) ELSE Fail("c")
    [] OTHER ->
      LET common == msg.bits \cap (IF c.acc = {} THEN {1} ELSE c.acc)
          sure == common \cap Sure(CFlags)
          allowed == {l \in common \cap May(CFlags) : \A m \in sure : m <= l}
      IN IF msg.k # "offer" \/ ~msg.good \/ allowed = {} \/ cfail = "wrap" THEN Fail("c")
         ELSE \/ \E l \in allowed : /\ c' = [c EXCEPT !.st = "done", !.layer = l] /\ Send(Select({l}, TRUE), "s")
                                    /\ ends' = [ends EXCEPT !["c"] = "ok"] /\ UNCHANGED s
                                    /\ amb' = (amb \/ Cardinality(allowed) > 1 \/ c.acc = {} \/ sure = {})
              \/ /\ c.acc = {} \/ sure = {}
                 /\ amb' = TRUE /\ ends' = [ends EXCEPT !["c"] = "fail"] /\ turn' = "end" /\ c' = [c EXCEPT !.st = "fail"]
                 /\ UNCHANGED <<s, msg>>

Subsets(lo, hi) == {x \in SUBSET hi : lo \subseteq x /\ x # {}}
\* may the server give up when the context is there?
Doubtful(acc) == acc \cap Sure(sflags) = {} \/ sfail = "info"
ServerOffer(n, acc) ==
  LET sure == acc \cap Sure(sflags)
      may == (IF acc = {} THEN {1} ELSE acc) \cap May(sflags)
  IN IF sfail = "wrap" THEN Fail("s")
     ELSE \E x \in Subsets(sure, may) :
            /\ s' = [s EXCEPT !.st = "final", !.n = n, !.acc = x] /\ Send(Offer(x, TRUE), "c")
            /\ amb' = (amb \/ Cardinality(Subsets(sure, may)) > 1 \/ Doubtful(acc)) /\ UNCHANGED <<c, ends>>

ServerEstablish(n) ==
  LET done == 2 * n + 1 > legs
      acc == Accepts(swant)
  IN IF sfail = (IF n = 1 THEN "accept1" ELSE "accept2") /\ n <= 2 THEN Fail("s")
     ELSE IF ~done THEN s' = [s EXCEPT !.st = "ctx", !.n = n] /\ Send(Tok(2 * n), "c") /\ UNCHANGED <<c, amb, ends>>
     ELSE IF acc # {} /\ acc \cap May(sflags) = {} THEN Fail("s")
     ELSE \/ /\ 2 * n <= legs
             /\ s' = [s EXCEPT !.st = "established", !.n = n, !.acc = acc] /\ Send(Tok(2 * n), "c") /\ UNCHANGED <<c, ends>>
             /\ amb' = (amb \/ Doubtful(acc))
          \/ 2 * n > legs /\ ServerOffer(n, acc)
          \/ /\ Doubtful(acc)
             /\ amb' = TRUE /\ ends' = [ends EXCEPT !["s"] = "fail"] /\ turn' = "end" /\ s' = [s EXCEPT !.st = "fail"]
             /\ UNCHANGED <<c, msg>>

ServerStep ==
  CASE s.st = "init" -> IF sfail = "cred" \/ msg # Tok(1) THEN Fail("s") ELSE ServerEstablish(1)
    [] s.st = "ctx" -> IF msg = Tok(2 * s.n + 1) THEN ServerEstablish(s.n + 1) ELSE Fail("s")
    [] s.st = "established" -> ServerOffer(s.n, s.acc)
    [] OTHER -> IF msg.k # "select" \/ ~msg.good \/ Cardinality(msg.bits) # 1 \/ ~(msg.bits \subseteq s.acc) \/ sfail = "info" THEN Fail("s")
                ELSE /\ s' = [s EXCEPT !.st = "done", !.layer = CHOOSE l \in msg.bits : TRUE]
                     /\ ends' = [ends EXCEPT !["s"] = "ok"] /\ turn' = "end" /\ UNCHANGED <<c, msg, amb>>

Step == /\ turn \in {"c", "s"} /\ ops' = Op("step")
        /\ IF turn = "c" THEN ClientStep ELSE ServerStep
        /\ UNCHANGED <<conf, faults>>

\* disturbances of the message in flight; it is the one the next step gets
Free == turn \in {"c", "s"} /\ faults < MaxFaults /\ msg.k # "none" /\ msg.good
Disturb(what, m) == /\ Free /\ msg' = m /\ faults' = faults + 1 /\ ops' = Op(what)
                    /\ UNCHANGED <<conf, c, s, turn, amb, ends>>
Alter == msg.k # "empty" /\ ~(turn = "s" /\ s.st = "established") /\ \E what \in {"alter", "repeat", "reflect"} :
            /\ what = "repeat" => Len(ops) > 2
            /\ what = "reflect" => Len(ops) > 1
            /\ Disturb(what, Bad)
\* a peer that knows the context says something else
Lie == \/ msg.k = "offer" /\ \E f \in Forged : Disturb("say" \o f.name, Offer(f.bits, f.good))
       \/ msg.k = "select" /\ \E f \in Forged : Disturb("say" \o f.name, Select(f.bits, f.good))
\* asked without the message
Without == /\ Free /\ ~(turn = "s" /\ s.st = "established")
           /\ ops' = Op("none") /\ faults' = faults + 1
           /\ UNCHANGED <<conf, c, s, turn, msg, amb, ends>>

End == /\ turn = "end" /\ turn' = "printed"
       /\ PrintT(ToJson([legs |-> legs, cwant |-> cwant, swant |-> swant, cflags |-> cflags, sflags |-> sflags, cfail |-> cfail,
                         sfail |-> sfail, ops |-> ops, amb |-> amb, client |-> ends["c"], server |-> ends["s"],
                         layers |-> <<c.layer, s.layer>>]))
       /\ UNCHANGED <<conf, c, s, msg, ops, faults, amb, ends>>

Next == Step \/ Alter \/ Lie \/ Without \/ End
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Honest == ~\E j \in DOMAIN ops : ops[j].op \notin {"step", "none"}
\* C20
Accepted(x, want) == x.layer # 0 => x.layer \in Accepts(want) \/ (Accepts(want) = {} /\ x.layer = 1)
ClientOnlyAccepted == Accepted(c, cwant)
ServerOnlyAccepted == Accepted(s, swant)
Supported == /\ c.layer # 0 => c.layer \in May(cflags)
             /\ s.layer # 0 => s.layer \in May(sflags)
Agreement == Honest /\ s.layer # 0 => s.layer = c.layer
\* the strongest layer that both accept and the context is sure to support
Strongest == Honest /\ c.layer # 0 =>
  \A l \in Accepts(cwant) \cap Accepts(swant) \cap Sure(cflags) \cap Sure(sflags) : l <= c.layer
\* nothing altered, repeated or reflected is ever taken for a message
NoForgery == \A j \in DOMAIN ops : ops[j].op \in {"alter", "repeat", "reflect"} => ~(ends["c"] = "ok" /\ ends["s"] = "ok")
\* when both can, they do
Possible == Honest /\ faults = 0 /\ turn = "end" /\ ~amb
            /\ Accepts(cwant) \cap Accepts(swant) \cap Sure(cflags) \cap Sure(sflags) # {}
            => ends["c"] = "ok" /\ ends["s"] = "ok"
Short == Len(SelectSeq(ops, LAMBDA o : o.op = "step")) <= legs + 4
=============================================================================
