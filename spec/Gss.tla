--------------------------------- MODULE Gss --------------------------------
(* The mechanism GSSAPI (RFC 4752), on top of a GSS-API library.                                  *)
EXTENDS Expect, GssApi

\* the layers: 1 none, 2 integrity, 4 confidentiality
Layers == {1, 2, 4}
LayerSet(b) == {l \in Layers : Flag(b, l)}
\* what a context is able to do for sure, and what it may be able to do
SureLayers(f) == {1} \cup (IF Flag(f, INTEG) THEN {2} ELSE {})
                 \cup (IF Flag(f, INTEG) /\ Flag(f, CONFID) /\ Flag(f, MUTUAL) THEN {4} ELSE {})
MayLayers(f) == {1} \cup (IF Flag(f, INTEG) THEN {2} ELSE {}) \cup (IF Flag(f, CONFID) THEN {4} ELSE {})

\* did the mechanism refuse an answer for this property?
RefusedAnswer(ev, p) == \E x \in DOMAIN ev.cbs : ev.cbs[x].is = <<p>> /\ \E y \in DOMAIN ev.cbs[x].ops : ev.cbs[x].ops[y].r = "mech"
LayersOf(r) == IF r.val = None THEN Layers ELSE LayerSet(r.val[1][1])
Failed == [E0 EXCEPT !.errs = {AnyErr}]
GssGiven(in) == in # None /\ in[1] # <<>>

------------------------------------------------------------------------------
(* Client *)
\* The context is complete; out is the last token
ClientAsks(C, ctx, out, ev, reqs) ==
  LET sure(v) == LayerSet(v[1]) \cap SureLayers(ctx.flags)
      refuse(v) == IF (sure(v) = {} \/ C.gss.fail = "info") /\ RefusedAnswer(ev, "GssSecurityLayer") THEN Some(MechErr) ELSE None
      r == Maybe(C, "GssSecurityLayer", {}, refuse)
      acc == LayersOf(r)
  IN [With(reqs \o <<r>>, [E0 EXCEPT !.out = out, !.st = [k |-> "layer", ctx |-> ctx, acc |-> acc]])
      EXCEPT !.mayerr = acc \cap SureLayers(ctx.flags) = {} \/ C.gss.fail = "info"]

ClientSelects(C, st, in, ev) ==
  LET u == UnwrapMsg(C.gss, st.ctx, in[1])
      t == u.out
      f == st.ctx.flags
      common == LayerSet(t[1]) \cap (IF st.acc = {} THEN {1} ELSE st.acc)
      sure == common \cap SureLayers(f)
      allowed == {l \in common \cap MayLayers(f) : \A m \in sure : m <= l}
      o == Opened(ev.out)
      l == IF o # None /\ Len(o[1]) = 9 /\ o[1][6] \in allowed THEN o[1][6] ELSE Max(allowed)
      size == IF l # 1 /\ o # None /\ Len(o[1]) = 9 THEN SubSeq(o[1], 7, 9) ELSE <<0, 0, 0>>
      w == WrapMsg(C.gss, u.ctx, FALSE, <<l>> \o size)
  IN IF ~u.ok \/ Len(t) # 4 \/ t[1] > 7 \/ allowed = {} \/ C.gss.fail = "wrap" THEN Failed
     ELSE [E0 EXCEPT !.out = w.out, !.res = "finY", !.st = [k |-> "done", ctx |-> w.ctx, layer |-> l],
                     !.mayerr = st.acc = {} \/ sure = {} \/ C.gss.fail = "info" \/ (t[1] = 1 /\ t # <<1, 0, 0, 0>>)]

GssClient(C, st, in, ev) ==
  CASE st.k = "init" ->
    LET s == Need(C, "GssService", {}, NoErr)
        h == Need(C, "Hostname", {}, NoErr)
        have == FlagsIn(C.gss.flags)
        o == Opened(ev.out)
        said == IF o # None /\ Len(o[1]) > 5 THEN FlagsIn(o[1][4] * 256 + o[1][5]) ELSE have
        \* everything that layers depend on is asked for
        flags == IF said \subseteq have /\ (have \cap {MUTUAL, CONFID, INTEG}) \subseteq said THEN said ELSE have
        e == Establish(C.gss, Ctx0(TRUE, FlagSum(flags), C.gss.src, s.val[1] \o B("@") \o h.val[1]), <<>>)
    IN IF Errs(<<s, h>>) # {} THEN With(<<s, h>>, E0)
       ELSE IF C.gss.fail \in {"cred", "name"} \/ ~e.ok THEN [Failed EXCEPT !.reqs = <<s, h>>]
       ELSE IF ~e.ctx.done THEN [With(<<s, h>>, [E0 EXCEPT !.out = e.out, !.st = [k |-> "ctx", ctx |-> e.ctx]]) EXCEPT !.mayerr = GssGiven(in)]
       ELSE LET a == ClientAsks(C, e.ctx, e.out, ev, <<s, h>>) IN [a EXCEPT !.mayerr = a.mayerr \/ GssGiven(in)]
    [] in = None -> NeedInput
    [] st.k = "ctx" ->
      LET e == Establish(C.gss, st.ctx, in[1])
      IN IF ~e.ok THEN Failed
         ELSE IF ~e.ctx.done THEN [E0 EXCEPT !.out = e.out, !.st = [k |-> "ctx", ctx |-> e.ctx]]
         ELSE ClientAsks(C, e.ctx, e.out, ev, <<>>)
    [] OTHER -> ClientSelects(C, st, in, ev)

------------------------------------------------------------------------------
(* Server *)
\* The token that lists the layers, E so far
ServerOffers(C, ctx, acc, ev, E) ==
  LET f == ctx.flags
      o == Opened(ev.out)
      said == IF o # None /\ Len(o[1]) = 9 THEN LayerSet(o[1][6]) ELSE {}
      may == (IF acc = {} THEN {1} ELSE acc) \cap MayLayers(f)
      sup == IF said # {} /\ said \subseteq may /\ (acc \cap SureLayers(f)) \subseteq said THEN said ELSE may
      size == IF sup # {1} /\ o # None /\ Len(o[1]) = 9 THEN SubSeq(o[1], 7, 9) ELSE <<0, 0, 0>>
      w == WrapMsg(C.gss, ctx, FALSE, <<FlagSum(sup)>> \o size)
  IN IF C.gss.fail = "wrap" THEN [E EXCEPT !.errs = {AnyErr}]
     ELSE [E EXCEPT !.out = w.out, !.st = [k |-> "final", ctx |-> w.ctx, sup |-> sup]]

ServerAccepts(C, st, in, ev) ==
  LET e == Establish(C.gss, st.ctx, in[1])
      r == Maybe(C, "GssSecurityLayer", {}, NoErr)
      acc == LayersOf(r)
      f == e.ctx.flags
      done == IF e.out # <<>> THEN [E0 EXCEPT !.out = e.out, !.st = [k |-> "established", ctx |-> e.ctx, acc |-> acc]]
              ELSE ServerOffers(C, e.ctx, acc, ev, E0)
  IN IF ~e.ok THEN Failed
     ELSE IF ~e.ctx.done THEN [E0 EXCEPT !.out = e.out, !.st = [k |-> "ctx", ctx |-> e.ctx]]
     ELSE IF Errs(<<r>>) # {} THEN With(<<r>>, E0)
     ELSE IF acc # {} /\ acc \cap MayLayers(f) = {} THEN [Failed EXCEPT !.reqs = <<r>>]
     ELSE [done EXCEPT !.reqs = <<r>>, !.mayerr = acc \cap SureLayers(f) = {} \/ C.gss.fail = "info"]

ServerFinishes(C, st, slot, in) ==
  LET u == UnwrapMsg(C.gss, st.ctx, in[1])
      t == u.out
      authzid == From(t, 5)
      ctx == {<<"AuthId", st.ctx.src>>} \cup (IF authzid = <<>> THEN {} ELSE {<<"AuthzId", authzid>>})
  IN IF ~u.ok \/ Len(t) < 4 \/ t[1] \notin st.sup \/ ~IsUtf8(authzid) \/ ~IsUtf8(st.ctx.src) \/ C.gss.fail = "info" THEN Failed
     ELSE [Validated(C, slot, ctx, [E0 EXCEPT !.res = "finN", !.st = [k |-> "done", ctx |-> u.ctx, layer |-> t[1]]])
           \* an identity to act as need not be supported, but may not be ignored either
           EXCEPT !.mayerr = authzid # <<>> \/ (t[1] = 1 /\ SubSeq(t, 2, 4) # <<0, 0, 0>>)]

GssServer(C, st, slot, in, ev) ==
  CASE st.k = "established" -> [ServerOffers(C, st.ctx, st.acc, ev, E0) EXCEPT !.mayerr = GssGiven(in)]
    [] in = None -> NeedInput
    [] st.k = "init" -> IF C.gss.fail = "cred" THEN Failed
                        ELSE ServerAccepts(C, [k |-> "ctx", ctx |-> Ctx0(FALSE, 0, <<>>, <<>>)], in, ev)
    [] st.k = "ctx" -> ServerAccepts(C, st, in, ev)
    [] OTHER -> ServerFinishes(C, st, slot, in)

------------------------------------------------------------------------------
(* The layer once the exchange is over *)
HasLayer(st) == "layer" \in DOMAIN st /\ st.layer \in {2, 4}
\* Encoding and decoding: [ok, st, out]
LayerEncode(C, st, b) ==
  LET w == WrapMsg(C.gss, st.ctx, st.layer = 4, b)
  IN [ok |-> C.gss.fail # "wrap", st |-> [st EXCEPT !.ctx = w.ctx], out |-> w.out]
LayerDecode(C, st, b) ==
  LET u == UnwrapMsg(C.gss, st.ctx, b)
  IN [ok |-> u.ok, st |-> [st EXCEPT !.ctx = u.ctx], out |-> u.out]
=============================================================================
