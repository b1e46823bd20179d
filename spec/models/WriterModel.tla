----------------------------- MODULE WriterModel -----------------------------
(* Writing one message of Len bytes to a writer that takes it in any way it likes.                  *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Lens, MaxInt, Sizes

VARIABLES len, done, sched, ints, res
vars == <<len, done, sched, ints, res>>
Init == len \in Lens /\ done = 0 /\ sched = <<>> /\ ints = 0 /\ res = "open"
Live == res = "open" /\ done < len
Item(x) == sched' = Append(sched, x)
Accept == Live /\ \E k \in Sizes : /\ Item(ToString(k)) /\ done' = (IF done + k > len THEN len ELSE done + k)
                                   /\ UNCHANGED <<len, ints, res>>
Interrupt == Live /\ ints < MaxInt /\ Item("int") /\ ints' = ints + 1 /\ UNCHANGED <<len, done, res>>
Refuse == Live /\ \E x \in {"zero", "err", "full"} : Item(x) /\ res' = "fail" /\ UNCHANGED <<len, done, ints>>
Finish == /\ res = "open" /\ done = len /\ res' = "ok" /\ UNCHANGED <<len, done, sched, ints>>
Emit == /\ res \in {"ok", "fail"} /\ res' = res \o "!"
         /\ PrintT(ToJson([len |-> len, sched |-> sched, res |-> res]))
         /\ UNCHANGED <<len, done, sched, ints>>
Next == Accept \/ Interrupt \/ Refuse \/ Finish \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* C16: success means all of it; never more than that
Whole == res \in {"ok", "ok!"} => done = len
Bounded == done <= len
Ends == <>(res \in {"ok!", "fail!"})
=============================================================================
