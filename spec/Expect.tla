------------------------------- MODULE Expect -------------------------------
(* What a step may do.  A mechanism is specified by, for each state and input, an expectation:  *)
(*   errs    the errors the step must end with one of (empty: it must succeed)                *)
(*   mayerr  an implementation may refuse this input/value altogether                          *)
(*   reject  the step must end the exchange without success: an error, or a final message     *)
(*           "e=..." (SCRAM servers)                                                          *)
(*   blame   the kinds of error a message may be refused with                                 *)
(*   any     unconstrained (apart from not panicking); the session is not looked at any more   *)
(*   out, res   the complete message and the state reported                                   *)
(*   reqs, ord  the requests made, in order if ord; none is made twice                        *)
(*   vals    the contexts of the validation calls                                             *)
(*   st      the next state                                                                   *)
(*   devs    violations already found (e.g. a bad nonce)                                      *)
(*   fresh   random values drawn: these must never repeat                                     *)
EXTENDS Request

E0 == [errs |-> {}, mayerr |-> FALSE, reject |-> FALSE, blame |-> {"mech"}, any |-> FALSE, out |-> <<>>, res |-> "run",
       reqs |-> <<>>, ord |-> FALSE, vals |-> <<>>, st |-> [k |-> "done"], devs |-> {}, fresh |-> <<>>]
Anything == [E0 EXCEPT !.any = TRUE]
Reject == [E0 EXCEPT !.errs = {AnyErr}]
RejectAs(kinds) == [Reject EXCEPT !.blame = kinds]
NeedInput == [E0 EXCEPT !.errs = {ErrN("input", <<>>)}]

(* Run the validation script on the outcome slot: [slot, err] *)
VRun(C, slot, ctx) ==
  LET value(op) == IF op.ctx # "" THEN Or(CtxVal(ctx, op.ctx), <<>>) ELSE op.v
      one(s, op) ==
        IF s.err # None THEN s ELSE
        CASE op.op = "fin" -> IF op.t = C.vt /\ s.slot = None THEN [s EXCEPT !.slot = Some(value(op))] ELSE s
          [] op.op = "with" ->
              IF op.t # C.vt \/ s.slot # None THEN s
              ELSE IF op.f # None THEN (IF op.q THEN [s EXCEPT !.err = Some(ErrN("val", op.f[1]))] ELSE s)
              ELSE [s EXCEPT !.slot = Some(value(op))]
          [] OTHER -> [s EXCEPT !.err = Some(ErrN("val", IF op.n = None THEN B("missing") ELSE op.n[1]))]
  IN FoldLeft(one, [slot |-> slot, err |-> None], C.val)

(* The requests rs are made; if none fails the step results in E *)
With(rs, E) ==
  IF Errs(rs) # {} THEN [E0 EXCEPT !.errs = Errs(rs), !.reqs = rs]
  ELSE [E EXCEPT !.reqs = rs]

(* The identity ctx is handed to the validation callback; if that accepts the step results in E *)
Validated(C, slot, ctx, E) ==
  LET v == VRun(C, slot, ctx)
  IN IF v.err # None THEN [E EXCEPT !.errs = {v.err[1]}, !.vals = <<ctx>>]
     ELSE [E EXCEPT !.vals = <<ctx>>]

Need(C, p, ctx, Cl(_)) == Ask(C.script, "need", p, ctx, <<>>, Cl)
Maybe(C, p, ctx, Cl(_)) == Ask(C.script, "maybe", p, ctx, <<>>, Cl)
Action(C, p, ctx, act) == Ask(C.script, "action", p, ctx, act, NoErr)

(* Channel binding data of the given type: the protocol's, otherwise a request.  [reqs, val, errs] *)
CbData(C, name, ctx, must) ==
  LET M == {j \in DOMAIN C.pcb : B(C.pcb[j][1]) = name}
      all == {<<"ChannelBindingName", name>>} \cup {e \in ctx : e[1] # "ChannelBindingName"}
      r == Maybe(C, "ChannelBindings", all, NoErr)
  IN IF M # {} THEN [reqs |-> <<>>, val |-> Some(C.pcb[Min(M)][2]), errs |-> {}]
     ELSE [reqs |-> <<r>>, val |-> r.val,
           errs |-> IF r.errs # {} THEN r.errs ELSE IF must /\ r.val = None THEN {ErrN("cb", name)} ELSE {}]
=============================================================================
