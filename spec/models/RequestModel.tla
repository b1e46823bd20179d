----------------------------- MODULE RequestModel ----------------------------
(* What callbacks can do with a request: every script of at most MaxLen operations, for each kind   *)
(* of request.  The properties are about Request!Answer, the semantics replayed on the real code.   *)
EXTENDS Expect, TLC, Json
CONSTANTS MaxLen, Kinds

P == "Iterations"          \* asked for
Q == "AuthId"              \* something else
Op(op, p, v, q, f, k) == [op |-> op, p |-> p, v |-> v, q |-> q, f |-> f, k |-> k, n |-> IF k = "boxed" THEN B("own") ELSE <<>>,
                          e |-> <<>>, kv |-> <<>>, ck |-> <<>>, sk |-> <<>>, users |-> <<>>]
F(k) == Some([k |-> k, n |-> B("f")])
Ops == {Op("sat", P, B("11"), q, None, "") : q \in BOOLEAN} \cup {Op("sat", P, B("22"), TRUE, None, "")}
       \cup {Op("sat", Q, B("other"), TRUE, None, ""), Op("satw", P, B("33"), TRUE, None, ""), Op("satw", P, B("44"), FALSE, None, "")}
       \cup {Op("satw", P, B("55"), TRUE, F("boxed"), ""), Op("satw", P, B("55"), FALSE, F("boxed"), ""),
             Op("satw", P, B("55"), TRUE, F("novalue"), "")}
       \cup {Op("act", P, <<>>, TRUE, None, ""), Op("act", Q, <<>>, TRUE, None, ""), Op("ret", "", <<>>, TRUE, None, "")}
       \cup {Op("err", "", <<>>, TRUE, None, k) : k \in {"novalue", "boxed", "nocb"}}
       \cup {Op("errp", Q, <<>>, TRUE, None, "boxed"), Op("errp", P, <<>>, TRUE, None, "novalue")}
\* how the mechanism takes the answer
Cls == {None, Some([k |-> "boxed", n |-> B("refused")]), Some([k |-> "novalue", n |-> <<>>])}

VARIABLES script, kind, cl
Init == script = <<>> /\ kind \in Kinds /\ cl \in Cls
Next == /\ Len(script) < MaxLen
        /\ \E o \in Ops : script' = Append(script, o)
        /\ UNCHANGED <<kind, cl>>
Spec == Init /\ [][Next]_<<script, kind, cl>>

ClOf(v) == IF cl = None THEN None ELSE Some(ErrN(cl[1].k, cl[1].n))
A == Answer(script, kind, P, {}, B("77"), ClOf)
R == Ask(script, kind, P, {}, B("77"), ClOf)

Answers(o) == o.p = P /\ o.op \in {"sat", "satw"} /\ o.f = None
\* the first answer is the one used, if there is one at all, and is taken at most once
FirstAnswer == A.got # None =>
  /\ kind # "action"
  /\ \E j \in DOMAIN script : /\ Answers(script[j]) /\ A.got[1] = script[j].v
                              /\ \A i \in 1..(j - 1) : ~Answers(script[i])
Once == Cardinality({j \in DOMAIN A.ops : A.ops[j].r = Early}) <= 1
\* answering something else or lazily without need has no effect at all
NoEffect == \A j \in DOMAIN A.ops : script[j].op \in {"sat", "satw"} /\ script[j].p # P
                                    => A.ops[j].r = OkR /\ ~A.ops[j].called
Lazy == \A j \in DOMAIN A.ops : A.ops[j].called =>
          script[j].p = P /\ kind # "action" /\ \A i \in 1..(j - 1) : ~Answers(script[i])
\* an action is there once and only for its property
ActionOnce == /\ Cardinality({j \in DOMAIN A.ops : A.ops[j].act # None}) <= 1
              /\ \A j \in DOMAIN A.ops : A.ops[j].act # None => kind = "action" /\ script[j].p = P
\* required: an answer or an error; optional: errors only of the callback's or mechanism's making
Required == kind = "need" => (R.errs = {} <=> A.got # None /\ A.ret.k \in {"ok", "early", "novalue"})
Optional == kind = "maybe" /\ A.ret.k \in {"ok", "early", "novalue"} => R.errs = {}
Handled == kind = "action" => (R.errs = {} <=> ~A.left /\ A.ret.k \in {"ok", "early"})
Unchanged == A.ret.k \notin {"ok", "early", "novalue"} => R.errs = {A.ret}
PrintInv == script = <<>> \/ PrintT(ToJson([script |-> script, kind |-> kind, cl |-> cl, fails |-> R.errs # {}]))
=============================================================================
