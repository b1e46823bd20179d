------------------------------- MODULE Planned ------------------------------
(* The harness' own mechanisms: each step executes a plan of framework operations.              *)
EXTENDS Scram, Gss

\* leftmost provider wins
ProvCtx(prov) ==
  LET e == prov[1] \o prov[2]
  IN {e[j] : j \in {j \in DOMAIN e : \A i \in 1..(j - 1) : e[i][1] # e[j][1]}}

PlannedStep(C, slot, in, plan) ==
  LET init == [reqs |-> <<>>, vals |-> <<>>, out |-> <<>>, errs |-> {}, res |-> "run", stop |-> FALSE, slot |-> slot]
      fail(s, errs) == [s EXCEPT !.errs = errs, !.stop = TRUE]
      got(v) == IF v = None THEN B("-") ELSE B("+") \o v[1]
      asked(s, r) ==
        IF r.errs # {} THEN [fail(s, r.errs) EXCEPT !.reqs = Append(s.reqs, r)]
        ELSE [s EXCEPT !.reqs = Append(s.reqs, r), !.out = s.out \o got(IF r.kind = "action" THEN None ELSE r.val)]
      one(s, o) ==
        IF s.stop THEN s ELSE
        CASE o.do = "input" -> IF in = None THEN fail(s, {ErrN("input", <<>>)}) ELSE [s EXCEPT !.out = s.out \o in[1]]
          [] o.do = "write" -> [s EXCEPT !.out = s.out \o o.b]
          [] o.do = "ret" -> [s EXCEPT !.res = o.r, !.stop = TRUE]
          [] o.do = "validate" ->
              LET ctx == ProvCtx(o.prov) v == VRun(C, s.slot, ctx)
                  t == [s EXCEPT !.vals = Append(s.vals, ctx), !.slot = v.slot]
              IN IF v.err # None THEN fail(t, {v.err[1]}) ELSE t
          [] o.do = "cbdata" ->
              LET d == CbData(C, o.name, ProvCtx(<<o.prov[1], <<>>>>), o.must)
                  t == [s EXCEPT !.reqs = s.reqs \o d.reqs]
              IN IF d.errs # {} THEN fail(t, d.errs) ELSE [t EXCEPT !.out = s.out \o got(d.val)]
          [] OTHER ->
              LET cl(v) == IF o.cl = None THEN None ELSE Some(Named(o.cl[1]))
              IN asked(s, Ask(C.script, o.do, o.p, ProvCtx(o.prov), o.v, cl))
      r == FoldLeft(one, init, plan)
  IN [E0 EXCEPT !.errs = r.errs, !.out = IF r.errs = {} THEN r.out ELSE <<>>, !.res = r.res, !.reqs = r.reqs,
                !.ord = TRUE, !.vals = r.vals, !.st = [k |-> "init"]]

------------------------------------------------------------------------------
MechStep(C, st, slot, in, ev) ==
  IF C.side = "client" THEN
    CASE C.mech = "PLAIN" -> PlainClient(C, in)
      [] C.mech = "LOGIN" -> LoginClient(C, st, in)
      [] C.mech = "ANONYMOUS" -> AnonymousClient(C, in)
      [] C.mech = "EXTERNAL" -> ExternalClient(C, in)
      [] C.mech = "XOAUTH2" -> XOAuth2Client(C, st, in)
      [] C.mech = "OAUTHBEARER" -> OAuthBearerClient(C, st, in, ev)
      [] C.planned -> PlannedStep(C, slot, in, ev.plan)
      [] C.mech = "GSSAPI" -> GssClient(C, st, in, ev)
      [] OTHER -> ScramClient(C, st, in, ev)
  ELSE
    CASE C.mech = "PLAIN" -> PlainServer(C, slot, in)
      [] C.mech = "LOGIN" -> LoginServer(C, st, slot, in)
      [] C.mech = "ANONYMOUS" -> AnonymousServer(C, slot, in)
      [] C.mech = "EXTERNAL" -> ExternalServer(C, slot, in)
      [] C.mech = "XOAUTH2" -> XOAuth2Server(C, st, slot, in, ev)
      [] C.mech = "OAUTHBEARER" -> OAuthBearerServer(C, st, slot, in, ev)
      [] C.planned -> PlannedStep(C, slot, in, ev.plan)
      [] C.mech = "GSSAPI" -> GssServer(C, st, slot, in, ev)
      [] OTHER -> ScramServer(C, st, slot, in, ev)
InitSt == [k |-> "init"]
PlannedMechs == {"X-CF", "X-SF", "X-CLIENTONLY", "X-SERVERONLY", "X-LOW", "PLAI", "PLAIN-PLUS", "X-CB", "X-NOSTART", "X-BOTH"}
\* most messages an exchange has
MaxMsgs(mech) == CASE mech \in {"PLAIN", "ANONYMOUS", "EXTERNAL"} -> 1
                   [] mech \in {"XOAUTH2", "OAUTHBEARER"} -> 3
                   [] mech \in {"LOGIN"} -> 4
                   [] mech = "GSSAPI" -> 7
                   [] mech \in PlannedMechs -> 16
                   [] OTHER -> 4
=============================================================================
