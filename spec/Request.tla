------------------------------- MODULE Request ------------------------------
(* Property requests: what a user callback following a given script does with  *)
(* a request, what the operations on the request return, and what the         *)
(* mechanism gets.  An error is [k |-> kind, n |-> name bytes]; in patterns   *)
(* kind "any" matches every error and name <<-1>> every name.                 *)
EXTENDS Bytes

Err(k) == [k |-> k, n |-> <<0 - 1>>]
ErrN(k, n) == [k |-> k, n |-> n]
AnyErr == Err("any")
MechErr == Err("mech")
OkR == ErrN("ok", <<>>)
Early == ErrN("early", <<>>)

\* The error a script names
Named(o) ==
  CASE o.k = "nocb" -> ErrN("nocb", B("Custom"))
    [] o.k = "io" -> ErrN("io", B("Other"))
    [] o.k \in {"boxed", "cb"} -> ErrN(o.k, o.n)
    [] OTHER -> ErrN(o.k, <<>>)

CtxVal(ctx, p) == LET M == {e \in ctx : e[1] = p} IN IF M = {} THEN None ELSE Some((CHOOSE e \in M : TRUE)[2])

\* The value an operation of the script offers for its property, if it has one for this context
OpVal(op, ctx) ==
  CASE op.p = "ScramStoredPassword" ->
        LET u == CtxVal(ctx, "AuthId")
            M == SelectSeq(op.users, LAMBDA x : IsSome(u) /\ x.user = u[1])
        IN IF M = <<>> THEN None ELSE Some(M[1])
    [] op.p = "ScramCachedPassword" -> Some([ck |-> op.ck, sk |-> op.sk])
    [] op.p = "OAuthBearerKV" -> Some(op.kv)
    [] op.p \in {"XOAuth2Validate", "OAuthBearerValidate"} -> Some(op.e)
    [] OTHER -> Some(op.v)

NoErr(v) == None

(* Run a script on a request for property p.  act: kind "action" with this value; Cl(v): the   *)
(* error with which the mechanism refuses the answer v, if it does.                           *)
Answer(script, kind, p, ctx, act, Cl(_)) ==
  LET init == [open |-> kind # "action", got |-> None, left |-> kind = "action", stop |-> FALSE,
               ret |-> OkR, ops |-> <<>>]
      rec(r, called, a) == [r |-> r, called |-> called, act |-> a]
      offer(s, v, called, q) ==       \* answer an open, matching request
        LET ce == Cl(v)
            r == IF ce = None THEN Early ELSE ce[1]
        IN [s EXCEPT !.open = FALSE, !.got = IF ce = None THEN Some(v) ELSE None,
                     !.ops = Append(s.ops, rec(r, called, None)),
                     !.stop = q, !.ret = IF q THEN r ELSE s.ret]
      skip(s) == [s EXCEPT !.ops = Append(s.ops, rec(OkR, FALSE, None))]
      fail(s, e) == [s EXCEPT !.ops = Append(s.ops, rec(e, FALSE, None)), !.stop = TRUE, !.ret = e]
      one(s, op) ==
        IF s.stop THEN s ELSE
        CASE op.op = "sat" ->
              LET v == IF op.p = p /\ s.open THEN OpVal(op, ctx) ELSE None
              IN IF v = None THEN skip(s) ELSE offer(s, v[1], FALSE, op.q)
          [] op.op = "satw" ->
              IF ~(op.p = p /\ s.open) THEN skip(s)
              ELSE IF op.f # None
              THEN LET e == Named(op.f[1])
                   IN [s EXCEPT !.ops = Append(s.ops, rec(e, TRUE, None)), !.stop = op.q,
                                !.ret = IF op.q THEN e ELSE s.ret]
              ELSE offer(s, OpVal(op, ctx)[1], TRUE, op.q)
          [] op.op = "act" ->
              IF op.p = p /\ s.left
              THEN [s EXCEPT !.left = FALSE, !.ops = Append(s.ops, rec(OkR, FALSE, Some(act)))]
              ELSE skip(s)
          [] op.op = "err" -> fail(s, Named(op))
          [] op.op = "errp" -> IF op.p = p THEN fail(s, Named(op)) ELSE skip(s)
          [] op.op = "ret" -> [s EXCEPT !.stop = TRUE]
  IN FoldLeft(one, init, script)

(* A request as made by a mechanism: what it asks, what the callback does, the value obtained  *)
(* (an option) and the errors, any of which the step may fail with (empty: it goes on).         *)
Ask(script, kind, p, ctx, act, Cl(_)) ==
  LET a == Answer(script, kind, p, ctx, act, Cl)
      through == a.ret.k \in {"ok", "early"}
      errs ==
        CASE kind = "action" -> IF ~through THEN {a.ret} \cup (IF a.ret.k = "novalue" THEN {ErrN("nocb", B(p))} ELSE {})
                                ELSE IF a.left THEN {ErrN("nocb", B(p))} ELSE {}
          [] ~through /\ a.ret.k # "novalue" -> {a.ret}
          [] kind = "need" /\ a.got = None -> {ErrN("nocb", B(p))}
          [] OTHER -> {}
  IN [kind |-> kind, p |-> p, ctx |-> ctx, ops |-> a.ops, val |-> a.got, errs |-> errs]

Errs(rs) == UNION {rs[j].errs : j \in DOMAIN rs}
Or(o, d) == IF o = None THEN d ELSE o[1]
=============================================================================
