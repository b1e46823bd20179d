-------------------------------- MODULE Trace -------------------------------
(* Trace validation: every event recorded from the real library must be one the specification    *)
(* allows in the state it has reached.  A behaviour is the check of one trace; each deviation is  *)
(* printed as a JSON line [dev, id, i, s, rule, ...] and ends the check of its session.            *)
EXTENDS Planned, Select, Mechname, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, i, ss, fresh, last

T == Traces[t]

------------------------------------------------------------------------------
NoScript == <<>>
SatOp(p, v) == [op |-> "sat", p |-> p, v |-> v, q |-> TRUE, f |-> <<>>, k |-> "", n |-> <<>>, e |-> <<>>,
                kv |-> <<>>, ck |-> <<>>, sk |-> <<>>, users |-> <<>>]
\* credentials answer these properties and nothing else
CredScript(cred) == <<SatOp("AuthId", cred[2][1]), SatOp("Password", cred[3][1])>>
                    \o (IF cred[1] = None THEN <<>> ELSE <<SatOp("AuthzId", cred[1][1])>>)

Env(tr, j, mech) ==
  LET d == tr.sess[j + 1]
      c == tr.cfgs[d.cfg + 1]
      cred == c.regk = "cred"
  IN [mech |-> mech, side |-> d.side, script |-> IF cred THEN CredScript(c.cred) ELSE c.script,
      val |-> IF cred THEN <<>> ELSE c.val, cb |-> ~cred /\ c.cb, pcb |-> d.pcb,
      vt |-> IF d.side = "server" THEN d.val ELSE "N", rec |-> ~cred, offers |-> d.offers,
      regs |-> Enabled(c), planned |-> mech \in PlannedMechs,
      gss |-> IF "gss" \in DOMAIN d THEN d.gss ELSE DefaultGss]

(* A session: ph "none", "live", "over" (step must not be called), "lost" (deviated)             *)
S0 == [ph |-> "none", mech |-> "", st |-> InitSt, slot |-> None]

Dev(rule, s) == [rule |-> rule, s |-> s]
Result(s, devs) == [s |-> s, devs |-> devs, fresh |-> <<>>]

------------------------------------------------------------------------------
Start(tr, ev) ==
  LET d == tr.sess[ev.s + 1]
      c == tr.cfgs[d.cfg + 1]
      enabled == Enabled(c)
      cb == c.regk # "cred" /\ c.cb
      prefer == IF c.regk = "cred" THEN None ELSE c.prefer
      client == d.side = "client"
      allowed == IF client THEN ClientChoice(enabled, d.offers, cb, prefer)
                 ELSE {d.sel} \cap Range(Available(enabled))
      good == IF ev.res = "ok" THEN ev.mech \in Starts(allowed) ELSE ev.res = "noshared" /\ MayFail(allowed)
      first == ev.res = "ok" /\ ev.mech \in DOMAIN MechInfo => ev.first = (FirstSide(ev.mech) = d.side)
      avail == ~client => IF c.regk = "static" THEN Range(ev.avail) = Range(Available(enabled)) /\ Len(ev.avail) = Len(Available(enabled))
                          ELSE ev.avail = Available(enabled)
  IN Result([S0 EXCEPT !.ph = IF ev.res = "ok" /\ good THEN "live" ELSE "lost", !.mech = ev.mech],
            (IF ev.res = "panic" THEN {"panic"} ELSE IF good THEN {} ELSE {"start"})
            \cup (IF first THEN {} ELSE {"first"}) \cup (IF avail THEN {} ELSE {"avail"}))

------------------------------------------------------------------------------
MatchErr(pat, ev) == pat.k = "any" \/ (pat.k = ev.ek /\ (pat.n = <<0 - 1>> \/ pat.n = ev.en))

OpMatches(want, got) ==
  /\ want.called = got.called
  /\ want.act = got.act
  /\ \/ want.r.k = got.r /\ want.r.n \in {<<0 - 1>>, got.n}
     \* an answer may also be taken first and refused afterwards
     \/ want.r.k \in {"mech"} /\ got.r = "early"
OpsMatch(want, got) == Len(want) = Len(got) /\ \A j \in DOMAIN want : OpMatches(want[j], got[j])

(* Deviations of the requests made; cb: one callback invocation *)
ReqDevs(C, E, ev, ok) ==
  LET R == E.reqs
      N == DOMAIN ev.cbs
      ctxof(cb) == Range(cb.ctx)
      ofprop(cb) == {j \in DOMAIN R : R[j].p \in Range(cb.is)}
      exact(cb) == {j \in ofprop(cb) : R[j].ctx = ctxof(cb)}
      one(cb) ==
        IF cb.sd.mech # C.mech \/ cb.sd.side # C.side THEN {"sd"}
        ELSE IF ofprop(cb) = {} THEN {"req"}
        ELSE IF \A j \in ofprop(cb) : cb.is # <<R[j].p>> THEN {"is"}
        ELSE IF exact(cb) = {} THEN {"reqctx"}
        ELSE IF ~ev.wref /\ \A j \in exact(cb) : ~OpsMatch(R[j].ops, cb.ops) THEN {"ops"}
        ELSE {}
      same(a, b) == a.is = b.is /\ ctxof(a) = ctxof(b)
      wantlike(j) == Cardinality({x \in DOMAIN R : R[x].p = R[j].p /\ R[x].ctx = R[j].ctx})
      gotlike(j) == Cardinality({x \in N : j \in exact(ev.cbs[x])})
      dup == \E j \in DOMAIN R : gotlike(j) > wantlike(j)
      miss == ok /\ \E j \in DOMAIN R : gotlike(j) < wantlike(j)
      order == E.ord /\ (\E x \in N : x \notin DOMAIN R \/ x \notin exact(ev.cbs[x]))
  IN IF ~C.rec THEN {}
     ELSE UNION {one(ev.cbs[x]) : x \in N} \cup (IF dup THEN {"reqdup"} ELSE {})
          \cup (IF miss THEN {"reqmiss"} ELSE {}) \cup (IF order THEN {"reqorder"} ELSE {})

(* Deviations of the validation calls *)
ValDevs(C, E, ev, ok) ==
  LET got == [x \in DOMAIN ev.vals |-> Range(ev.vals[x].ctx)]
      one(v) == (IF v.sd.mech # C.mech \/ v.sd.side # C.side THEN {"sd"} ELSE {})
                \cup (IF v.isa # (C.vt = "A") \/ v.isb THEN {"valtype"} ELSE {})
      count == IF ok \/ E.errs # {} THEN Len(got) = Len(E.vals) ELSE got = <<>> \/ Len(got) = Len(E.vals)
      ctxs == Len(got) = Len(E.vals) => \A x \in DOMAIN got : got[x] = E.vals[x]
  IN IF ~C.rec THEN {}
     ELSE (IF count THEN {} ELSE {"valcount"}) \cup (IF ctxs THEN {} ELSE {"val"})
          \cup UNION {one(ev.vals[x]) : x \in DOMAIN ev.vals}

RECURSIVE Slots(_, _, _)
Slots(C, slot, vals) == IF vals = <<>> THEN slot ELSE Slots(C, VRun(C, slot, Range(vals[1].ctx)).slot, Tail(vals))

Step(tr, ev, s) ==
  LET C == Env(tr, ev.s, s.mech)
      b64 == ev.via = "step64"
      badin == b64 /\ ev.in # None /\ ~IsB64(ev.in[1])
      in == IF b64 /\ ev.in # None THEN Some(UnB64(ev.in[1])) ELSE ev.in
      outok == ~b64 \/ IsB64(ev.out)
      out == IF b64 THEN UnB64(ev.out) ELSE ev.out
      ok == ev.res \in {"run", "finY", "finN"}
      quiet == ev.out = <<>> /\ ev.cbs = <<>> /\ ev.vals = <<>>
      E == MechStep(C, s.st, s.slot, in, [ev EXCEPT !.out = IF outok THEN out ELSE <<>>])
      slot == Slots(C, s.slot, ev.vals)
      over == [s EXCEPT !.ph = "over", !.slot = slot]
      lost == [s EXCEPT !.ph = "lost"]
      inputerr == E.errs = {ErrN("input", <<>>)} /\ E.reqs = <<>>
      \* asking for a message (again) when there was one is no way to refuse it
      asks == ev.res = "err" /\ ev.ek \in {"input", "base64"}
      mayerr == E.mayerr /\ ~asks
      rejected == E.reject /\ ((ev.res = "err" /\ ~asks) \/ (ev.res = "finY" /\ outok /\ StartsWith(out, B("e="))))
      \* a failed write may surface as any error
      ioerr == ev.res = "err" /\ ev.wref
      \* a message refused is nobody else's fault; only the client of a mutual authentication has more to tell
      class == IF ev.ek = "mech" /\ ev.en = B("outcome") /\ C.side = "client" /\ s.mech \in ScramMechs THEN "outcome" ELSE ev.ek
      errkind ==
        IF ev.res # "err" \/ badin \/ E.any \/ asks THEN {}
        ELSE IF ioerr THEN (IF E.errs = {} /\ ~E.reject /\ ~mayerr /\ ~(ev.ek = "io" /\ ev.en = ev.wkind) THEN {"errkind"} ELSE {})
        ELSE IF (E.reject \/ E.errs = {AnyErr} \/ (E.errs = {} /\ mayerr)) /\ class \notin E.blame THEN {"errkind"} ELSE {}
      \* and errors say so themselves
      says == CASE ev.res = "run" -> {"running", "sent"} [] ev.res = "finY" -> {"finished", "sent"} [] ev.res = "finN" -> {"finished"}
                [] ev.ek = "mech" -> {"mech"} [] ev.ek = "nocb" -> {"missing", "nocb"} [] OTHER -> {}
      told == IF Range(ev.told) = says THEN {} ELSE IF ok THEN {"res"} ELSE {"errkind"}
      devs == errkind \cup told \cup
        CASE badin -> IF ev.res = "err" /\ ev.ek = "base64" THEN (IF quiet THEN {} ELSE {"inputeffect"})
                      ELSE IF ok THEN {"accepted"} ELSE {"wrongerr"}
          [] E.any -> {}
          [] inputerr -> IF ev.res = "err" /\ ev.ek = "input" THEN (IF quiet THEN {} ELSE {"inputeffect"})
                         ELSE IF ok THEN {"accepted"} ELSE {"wrongerr"}
          [] E.reject -> (IF rejected \/ ioerr THEN {} ELSE IF asks THEN {"wrongerr"} ELSE {"accepted"}) \cup ValDevs(C, E, ev, TRUE)
                         \cup ReqDevs(C, E, ev, FALSE)
          [] ok /\ E.errs # {} -> {"accepted"} \cup ReqDevs(C, E, ev, FALSE)
          [] ok -> (IF ev.res = E.res THEN {} ELSE {"res"})
                   \cup (IF ~outok THEN {"b64out"} ELSE IF out = E.out THEN {} ELSE {"out"})
                   \cup E.devs \cup ReqDevs(C, E, ev, TRUE) \cup ValDevs(C, E, ev, TRUE)
          [] E.errs # {} -> (IF ioerr \/ mayerr \/ \E p \in E.errs : MatchErr(p, ev) THEN {} ELSE {"wrongerr"})
                            \cup ReqDevs(C, E, ev, FALSE) \cup (IF ioerr \/ mayerr THEN {} ELSE ValDevs(C, E, ev, FALSE))
          [] OTHER -> (IF ioerr \/ mayerr THEN {} ELSE {"rejected"})
                      \cup ReqDevs(C, E, ev, FALSE) \cup ValDevs(C, E, ev, FALSE)
      next == CASE badin -> s
                [] E.any -> lost
                [] inputerr -> s
                [] ok /\ E.errs = {} -> [IF ev.res = "run" THEN s ELSE over EXCEPT !.st = E.st, !.slot = slot]
                \* only the encoded message could not be written: the mechanism may have come to its end
                [] ioerr /\ b64 /\ E.errs = {} -> [over EXCEPT !.st = [k |-> IF HasLayer(E.st) THEN "unsure" ELSE "unsent"]]
                [] OTHER -> [over EXCEPT !.st = [k |-> "failed"]]
  IN IF ev.res = "panic" THEN Result(lost, {"panic"})
     ELSE IF s.ph # "live" THEN Result(lost, {"harness"})
     ELSE [s |-> IF devs = {} THEN next ELSE lost, devs |-> devs,
           fresh |-> IF ok /\ ~badin /\ ~E.any /\ E.errs = {} THEN E.fresh ELSE <<>>]

------------------------------------------------------------------------------
(* What is told of an error, or of a configuration, gives nothing away of what anybody in the     *)
(* scenario keeps secret: passwords, tokens, and keys, be they given or derived                   *)
SecretsOf(op) ==
  CASE op.op \notin {"sat", "satw"} -> {}
    [] op.p \in {"Password", "SaltedPassword", "OAuthBearerToken"} -> {op.v}
    [] op.p = "ScramCachedPassword" -> {op.ck, op.sk}
    [] op.p = "ScramStoredPassword" -> UNION {{u.stored, u.server} : u \in Range(op.users)}
    [] OTHER -> {}
ScriptOf(c) == IF c.regk = "cred" THEN CredScript(c.cred) ELSE c.script
Secrets(tr) == UNION {UNION {SecretsOf(op) : op \in Range(ScriptOf(tr.cfgs[j]))} : j \in DOMAIN tr.cfgs}
\* of a SCRAM client, on the way
Derived(tr, ev, s) ==
  IF s.mech \notin ScramMechs \/ s.st.k # "sfinal" THEN {}
  ELSE {s.st.ck, s.st.sk}
       \cup {SaltedPw(Alg(s.mech), p.v, x[2], NatOf(y[2])) :
               p \in {q \in Range(Env(tr, ev.s, s.mech).script) : q.op = "sat" /\ q.p = "Password"},
               x \in {z \in s.st.ctx : z[1] = "Salt"}, y \in {z \in s.st.ctx : z[1] = "Iterations"}}
Told(tr, ev, ss2) ==
  IF "text" \notin DOMAIN ev THEN {}
  ELSE IF \E x \in Secrets(tr) \cup (IF ev.e = "step" THEN Derived(tr, ev, ss[ev.s]) \cup Derived(tr, ev, ss2) ELSE {}) : Leaks(ev.text, x)
       THEN {"leak"} ELSE {}

------------------------------------------------------------------------------
(* Nothing is promised about stepping a session that came to its end, except that mechanisms that *)
(* authenticate by a state of their own never authenticate anybody then                           *)
Unsure(st) == st.k \in {"unsure", "spent"}
Locked(s) ==
  /\ s.st.k \notin {"unsure", "unsent"}
  /\ \/ s.mech \in ScramMechs \cup {"GSSAPI"}
     \/ s.mech = "LOGIN" /\ s.st.k # "failed"
After(ev, s) ==
  LET took == ev.res \in {"run", "finY", "finN"} \/ ev.vals # <<>>
  IN Result(IF ev.res = "panic" THEN [s EXCEPT !.ph = "lost"] ELSE IF HasLayer(s.st) THEN [s EXCEPT !.st = [k |-> "spent"]] ELSE s,
            IF s.ph # "over" THEN {"harness"} ELSE IF Locked(s) /\ took THEN {"afterend"} ELSE {})

------------------------------------------------------------------------------
(* Protecting data: only with a layer, and then with the one the exchange ended in *)
Protect(tr, ev, s) ==
  LET C == Env(tr, ev.s, s.mech)
      r == IF ev.e = "enc" THEN LayerEncode(C, s.st, ev.in) ELSE LayerDecode(C, s.st, ev.in)
      good == IF Unsure(s.st) THEN ev.res # "panic"
              ELSE IF ~HasLayer(s.st) THEN ev.res = "err" /\ ev.ek = "nosec" /\ ev.out = <<>>
              ELSE IF ~r.ok THEN ev.res = "err" /\ ev.out = <<>>
              ELSE IF ev.wref THEN ev.res = "err"
              ELSE ev.res = "ok" /\ ev.out = r.out /\ ev.n = Len(ev.in)
  IN Result(IF ev.wref \/ ~good THEN [s EXCEPT !.ph = "lost"] ELSE IF HasLayer(s.st) /\ r.ok THEN [s EXCEPT !.st = r.st] ELSE s,
            IF ev.res = "panic" THEN {"panic"} ELSE IF good THEN {} ELSE {"encdec"})

Event(tr, ev) ==
  LET s == ss[ev.s] IN
  CASE ev.e = "mechname" -> Result(s, NameDevs(ev))
    [] ev.e = "mecheq" -> Result(s, EqDevs(ev))
    [] ev.e = "start" -> Start(tr, ev)
    [] s.ph = "lost" -> Result(s, {})
    [] ev.e = "step" -> Step(tr, ev, s)
    [] ev.e = "after" -> After(ev, s)
    [] ev.e = "validation" ->
        Result([s EXCEPT !.slot = None], IF ev.v = s.slot THEN {} ELSE {"outcome"})
    [] ev.e = "has" -> Result(s, IF Unsure(s.st) \/ ev.v = HasLayer(s.st) THEN {} ELSE {"haslayer"})
    [] ev.e = "info" -> Result(s, IF ev.mech = s.mech /\ ev.first = (FirstSide(s.mech) = tr.sess[ev.s + 1].side) THEN {} ELSE {"info"})
    [] ev.e \in {"enc", "dec"} -> Protect(tr, ev, s)
    [] ev.e = "talkend" ->
        Result(s, (IF ev.strict /\ ev.status \in {"stuck", "undeliv", "endless", "nofirst"} THEN {"talk"} ELSE {})
                  \cup (IF ev.n > MaxMsgs(s.mech) THEN {"talklen"} ELSE {}))
    [] OTHER -> Result(s, {"harness"})

(* What the protocol model that a scenario comes from predicts: how each session ends.            *)
(* "ok": finished, "fail": failed, "open": not finished yet                                       *)
Sent(ev) == IF ev.via = "step64" /\ IsB64(ev.out) THEN UnB64(ev.out) ELSE ev.out
Ending(mech, ev) == CASE ev.res = "run" -> "open" [] ev.res = "finN" -> "ok"
                [] ev.res = "finY" -> IF mech \in ScramMechs /\ StartsWith(Sent(ev), B("e=")) THEN "fail" ELSE "ok"
                [] ev.ek \in {"input", "base64"} -> "open" [] OTHER -> "fail"
Unpredicted(l) ==
  IF "exp" \notin DOMAIN T THEN {}
  ELSE {j \in DOMAIN T.exp : l[T.exp[j][1]] # T.exp[j][2]}

Lost(e, rule) == [dev |-> TRUE, id |-> T.id, i |-> i + 1, s |-> e.s, rule |-> rule, e |-> e.e,
                  mech |-> IF e.s \in DOMAIN ss THEN ss[e.s].mech ELSE "",
                  st |-> IF e.s \in DOMAIN ss THEN ss[e.s].st.k ELSE ""]

Init == /\ t \in 1..Len(Traces)
        /\ i = 0
        /\ ss = [j \in 0..Len(T.sess) |-> S0]
        /\ fresh = <<>>
        /\ last = [j \in 0..Len(T.sess) |-> "open"]

Next == /\ i < Len(T.ev)
        /\ LET e == T.ev[i + 1]
               r == Event(T, e)
               \* random values must never repeat
               repeated == \E x \in DOMAIN r.fresh : r.fresh[x] \in Range(fresh)
               l == IF e.e = "step" THEN [last EXCEPT ![e.s] = Ending(ss[e.s].mech, e)] ELSE last
               model == i + 1 = Len(T.ev) /\ Unpredicted(l) # {}
           IN /\ \A d \in (IF model THEN {"model"} ELSE {}) \cup r.devs \cup Told(T, e, r.s) \cup (IF repeated THEN {"fresh"} ELSE {}) : PrintT(ToJson(Lost(e, d)))
              /\ ss' = [ss EXCEPT ![e.s] = r.s]
              /\ fresh' = fresh \o r.fresh
              /\ last' = l
        /\ i' = i + 1
        /\ UNCHANGED t

Spec == Init /\ [][Next]_<<t, i, ss, fresh, last>>
=============================================================================
