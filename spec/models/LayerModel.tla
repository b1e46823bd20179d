------------------------------ MODULE LayerModel -----------------------------
(* Data after an exchange: both sides protect messages with the layer that was negotiated, and the *)
(* network delivers, alters, repeats, reorders, reflects or invents them.  Without a layer nothing   *)
(* is encoded or decoded at all.                                                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps

VARIABLES layer, over, sent, rcvd, got, ops
vars == <<layer, over, sent, rcvd, got, ops>>
Sides == {"c", "s"}
Peer(x) == IF x = "c" THEN "s" ELSE "c"
\* over: is the exchange complete? before that there is no layer
Protected == over /\ layer # 1

Init == /\ layer \in {1, 2, 4} /\ over \in BOOLEAN
        /\ sent = [x \in Sides |-> 0] /\ rcvd = [x \in Sides |-> 0] /\ got = [x \in Sides |-> <<>>] /\ ops = <<>>

Do(x, what) == Len(ops) < MaxOps /\ ops' = Append(ops, [s |-> x, op |-> what]) /\ UNCHANGED <<layer, over>>
Encode(x) == Do(x, "enc") /\ sent' = [sent EXCEPT ![x] = IF Protected THEN @ + 1 ELSE @] /\ UNCHANGED <<rcvd, got>>
\* x is given the next message that its peer sent
Deliver(x) ==
  /\ rcvd[x] < sent[Peer(x)]
  /\ Do(x, "next") /\ rcvd' = [rcvd EXCEPT ![x] = @ + 1] /\ got' = [got EXCEPT ![x] = Append(@, rcvd[x] + 1)] /\ UNCHANGED sent
Refuse(x, what) == Do(x, what) /\ UNCHANGED <<sent, rcvd, got>>
Disturb(x) ==
  \/ Refuse(x, "plain")                                    \* what is no protected message
  \/ rcvd[x] < sent[Peer(x)] /\ Refuse(x, "alter")
  \/ rcvd[x] + 1 < sent[Peer(x)] /\ Refuse(x, "skip")
  \/ rcvd[x] > 0 /\ Refuse(x, "again")
  \/ sent[x] > 0 /\ Refuse(x, "reflect")
Emit == /\ Len(ops) = MaxOps /\ ops' = Append(ops, [s |-> "c", op |-> "end"])
         /\ PrintT(ToJson([layer |-> layer, over |-> over, ops |-> ops])) /\ UNCHANGED <<layer, over, sent, rcvd, got>>
Next == (\E x \in Sides : Encode(x) \/ Deliver(x) \/ Disturb(x)) \/ Emit
Spec == Init /\ [][Next]_vars

\* what arrives is what was sent, in order and once
InOrder == \A x \in Sides : got[x] = [j \in 1..Len(got[x]) |-> j] /\ Len(got[x]) <= sent[Peer(x)]
\* C21
NothingWithoutLayer == ~Protected => \A x \in Sides : sent[x] = 0 /\ got[x] = <<>>
=============================================================================
