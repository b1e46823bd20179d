------------------------------ MODULE Exchange -------------------------------
(* The life of a client and a server session of one mechanism driven by a protocol, with the       *)
(* disturbances a driver or a transport may cause: asking for a step without the message, wrong     *)
(* base64, writers that take a message in pieces or fail, other calls in between, and any reaction   *)
(* of the callbacks to the identity.  Every behaviour with at most MaxDist disturbances is explored  *)
(* and printed; the properties say that the drivers' view stays consistent.                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Mechs, MaxDist, Dists, Vals, Vias

One == {"PLAIN", "ANONYMOUS", "EXTERNAL"}
OAuth == {"XOAUTH2", "OAUTHBEARER"}
\* GSSAPI with contexts that take this many tokens
Gss == {"GSSAPI1", "GSSAPI2", "GSSAPI3"}

\* client side of mech in state st: what the step does given a message
\*   res: "run", "finY", "finN"; needs: "no" message wanted, "yes", "empty" (none counts as an empty one)
Cl(mech, st) ==
  CASE mech \in One -> [needs |-> "no", res |-> "finY", nxt |-> "over"]
    [] mech = "LOGIN" /\ st = "init" -> [needs |-> "empty", res |-> "run", nxt |-> "pw"]
    [] mech = "LOGIN" -> [needs |-> "empty", res |-> "finY", nxt |-> "over"]
    [] mech \in OAuth /\ st = "init" -> [needs |-> "no", res |-> "run", nxt |-> "wait"]
    \* the reply: nothing (success) or an error to be answered
    [] mech \in OAuth -> [needs |-> "empty", res |-> "reply", nxt |-> "over"]
    [] mech \in Gss /\ st = "init" -> [needs |-> "no", res |-> "run", nxt |-> IF mech = "GSSAPI1" THEN "layer" ELSE "ctx"]
    [] mech \in Gss /\ st = "ctx" -> [needs |-> "yes", res |-> "run", nxt |-> "layer"]
    [] mech \in Gss -> [needs |-> "yes", res |-> "finY", nxt |-> "over"]
    [] st = "init" -> [needs |-> "no", res |-> "run", nxt |-> "sfirst"]
    [] st = "sfirst" -> [needs |-> "yes", res |-> "run", nxt |-> "sfinal"]
    [] OTHER -> [needs |-> "yes", res |-> "finN", nxt |-> "over"]
\* server side; val: the identity is validated in this step
Sv(mech, st, rejects) ==
  CASE mech \in {"ANONYMOUS", "EXTERNAL"} -> [needs |-> "empty", res |-> "finN", nxt |-> "over", val |-> TRUE]
    [] mech = "PLAIN" -> [needs |-> "yes", res |-> "finN", nxt |-> "over", val |-> TRUE]
    [] mech = "LOGIN" /\ st = "init" -> [needs |-> "no", res |-> "run", nxt |-> "user", val |-> FALSE]
    [] mech = "LOGIN" /\ st = "user" -> [needs |-> "yes", res |-> "run", nxt |-> "pw", val |-> FALSE]
    [] mech = "LOGIN" -> [needs |-> "yes", res |-> "finN", nxt |-> "over", val |-> TRUE]
    [] mech \in OAuth /\ st = "init" /\ ~rejects -> [needs |-> "yes", res |-> "finN", nxt |-> "over", val |-> TRUE]
    [] mech \in OAuth /\ st = "init" -> [needs |-> "yes", res |-> "run", nxt |-> "errored", val |-> FALSE]
    [] mech \in OAuth -> [needs |-> "empty", res |-> "finN", nxt |-> "over", val |-> FALSE]
    [] mech \in Gss /\ st = "init" ->
         [needs |-> "yes", res |-> "run", val |-> FALSE,
          nxt |-> CASE mech = "GSSAPI1" -> "layers" [] mech = "GSSAPI2" -> "established" [] OTHER -> "ctx"]
    \* the client has nothing to say
    [] mech \in Gss /\ st = "established" -> [needs |-> "empty", res |-> "run", nxt |-> "layers", val |-> FALSE]
    [] mech \in Gss /\ st = "ctx" -> [needs |-> "yes", res |-> "run", nxt |-> "layers", val |-> FALSE]
    [] mech \in Gss -> [needs |-> "yes", res |-> "finN", nxt |-> "over", val |-> TRUE]
    [] st = "init" -> [needs |-> "yes", res |-> "run", nxt |-> "final", val |-> FALSE]
    [] OTHER -> [needs |-> "yes", res |-> "finY", nxt |-> "over", val |-> TRUE]
First(mech) == IF mech = "LOGIN" THEN "s" ELSE "c"
MaxMsgs(mech) == CASE mech \in One -> 1 [] mech \in OAuth \cup {"GSSAPI1"} -> 3 [] mech \in Gss -> 5 [] OTHER -> 4

\* reactions of the validation callback: does it fail the step, and is an outcome kept
ValFails(v) == v \in {"err", "fin-err", "witherr"}
ValKeeps(v) == v \in {"fin", "fin-fin", "other-fin", "fin-err", "with", "with-fin"}

\* what a step can't do without, and what else it asks its callback for
Wants(mech, who, st, msg) ==
  CASE who = "c" /\ mech = "PLAIN" -> {"AuthId", "Password"}
    [] who = "c" /\ mech = "LOGIN" -> IF st = "init" THEN {"AuthId"} ELSE {"Password"}
    [] who = "c" /\ mech = "XOAUTH2" -> IF st = "init" THEN {"AuthId", "OAuthBearerToken"} ELSE IF msg = "full" THEN {"XOAuth2Error"} ELSE {}
    [] who = "c" /\ mech = "OAUTHBEARER" -> IF st = "init" THEN {"OAuthBearerToken"} ELSE IF msg = "full" THEN {"OAuthBearerErrored"} ELSE {}
    [] who = "c" /\ mech \in Gss -> IF st = "init" THEN {"GssService", "Hostname"} ELSE {}
    [] who = "c" /\ mech = "SCRAM" -> IF st = "init" THEN {"AuthId"} ELSE IF st = "sfirst" THEN {"Password"} ELSE {}
    [] who = "s" /\ st = "init" /\ mech = "XOAUTH2" -> {"XOAuth2Validate"}
    [] who = "s" /\ st = "init" /\ mech = "OAUTHBEARER" -> {"OAuthBearerValidate"}
    [] OTHER -> {}
Likes(mech, who, st) ==
  IF st # "init" THEN {}
  ELSE IF who = "s" THEN IF mech = "SCRAM" THEN {"ScramStoredPassword"} ELSE {}
  ELSE CASE mech \in {"PLAIN", "EXTERNAL", "SCRAM"} -> {"AuthzId"}
         [] mech = "ANONYMOUS" -> {"AnonymousToken"}
         [] mech = "OAUTHBEARER" -> {"AuthzId", "OAuthBearerKV"}
         [] OTHER -> {}
\* is what a message says of any matter?
Reads(mech, who, st) ==
  CASE who = "c" -> st # "init" /\ mech # "LOGIN"
    [] mech = "LOGIN" -> st = "user"
    [] mech \in OAuth -> st = "init"
    [] mech \in Gss -> st # "established"
    [] OTHER -> TRUE

VARIABLES mech, via, valk, rejects,
          cst, sst,        \* states of the two sessions: of the mechanism, or "over"
          cres, sres,      \* "open", "ok", "fail"
          turn, msg,       \* whose step is next, with which message: "none", "full", "empty"
          n, dist, ops, vals, slot
vars == <<mech, via, valk, rejects, cst, sst, cres, sres, turn, msg, n, dist, ops, vals, slot>>

Init == /\ mech \in Mechs /\ via \in Vias /\ valk \in Vals
        /\ rejects \in (IF mech \in OAuth THEN BOOLEAN ELSE {FALSE})
        /\ cst = "init" /\ sst = "init" /\ cres = "open" /\ sres = "open"
        /\ turn = First(mech) /\ msg = "none" /\ n = 0 /\ dist = 0 /\ ops = <<>>
        /\ vals = 0 /\ slot = FALSE

Op(who, what) == [s |-> who, op |-> what, m |-> msg]
Do(o) == ops' = Append(ops, o)
Alive(who) == IF who = "c" THEN cres = "open" ELSE sres = "open"
Plan(who) == IF who = "c" THEN Cl(mech, cst) @@ [val |-> FALSE] ELSE Sv(mech, sst, rejects)
Other(who) == IF who = "c" THEN "s" ELSE "c"
\* what a step results in: only a rejected token makes a client answer
Res(who) == LET r == Plan(who).res
            IN IF r # "reply" THEN r ELSE IF msg = "full" THEN "finY" ELSE "finN"
\* a disturbance that is possible now
Free == turn \in {"c", "s"} /\ dist < MaxDist

\* the session fails: the driver stops
Fail(who, o) ==
  /\ Do(o) /\ turn' = "end"
  /\ IF who = "c" THEN cres' = "fail" /\ UNCHANGED sres ELSE sres' = "fail" /\ UNCHANGED cres
  /\ UNCHANGED <<mech, via, valk, rejects, cst, sst, msg, n>>

\* an ordinary step of the side whose turn it is; kind: how it is called
Advance(who, o) ==
  LET p == Plan(who)
      res == Res(who)
      fails == p.val /\ ValFails(valk)
  IN /\ vals' = IF p.val THEN vals + 1 ELSE vals
     /\ slot' = IF p.val THEN ValKeeps(valk) ELSE slot
     /\ IF fails THEN Fail(who, o)
        ELSE /\ Do(o)
             /\ IF who = "c" THEN cst' = p.nxt /\ UNCHANGED sst ELSE sst' = p.nxt /\ UNCHANGED cst
             /\ IF who = "c" THEN cres' = (IF res = "run" THEN cres ELSE "ok") /\ UNCHANGED sres
                ELSE sres' = (IF res = "run" THEN sres ELSE "ok") /\ UNCHANGED cres
             /\ n' = IF res = "finN" THEN n ELSE n + 1
             \* who finishes without a message has its outcome delivered by the protocol
             /\ LET otherdone == IF who = "c" THEN sres # "open" ELSE cres # "open"
                IN IF otherdone THEN turn' = "end" /\ msg' = "none"
                   ELSE turn' = Other(who) /\ msg' = IF res = "finN" THEN "none" ELSE "full"
             /\ UNCHANGED <<mech, via, valk, rejects>>

Needs(who) == Plan(who).needs
\* the driver never hands over something where nothing is expected
CanStep == Alive(turn) /\ (Needs(turn) = "yes" => msg # "none")
Step == turn \in {"c", "s"} /\ CanStep /\ Advance(turn, Op(turn, "step")) /\ UNCHANGED dist

\* disturbances
Missing ==        \* asked without the message that is there
  /\ Free /\ "none" \in Dists /\ msg = "full" /\ Needs(turn) = "yes"
  /\ Do(Op(turn, "none")) /\ dist' = dist + 1
  /\ UNCHANGED <<mech, via, valk, rejects, cst, sst, cres, sres, turn, msg, n, vals, slot>>
BadBase64 ==
  /\ Free /\ "bad64" \in Dists /\ msg = "full"
  /\ Do(Op(turn, "bad64")) /\ dist' = dist + 1
  /\ UNCHANGED <<mech, via, valk, rejects, cst, sst, cres, sres, turn, msg, n, vals, slot>>
Calls ==          \* calls that have nothing to do with the exchange
  \E who \in {"c", "s"}, w \in {"enc", "dec", "has", "info", "validation"} \cap Dists :
    /\ Free /\ (w = "validation" => ~slot)
    /\ Do(Op(who, w)) /\ dist' = dist + 1
    /\ UNCHANGED <<mech, via, valk, rejects, cst, sst, cres, sres, turn, msg, n, vals, slot>>
Pieces ==         \* the message is taken in pieces, with interruptions
  \E w \in {"w-bytes", "w-int", "w-mixed"} \cap Dists :
    /\ Free /\ CanStep /\ Advance(turn, Op(turn, w)) /\ dist' = dist + 1
Broken ==         \* the writer fails: so does the step, if there is something to write
  \E w \in {"w-err", "w-zero"} \cap Dists :
    /\ Free /\ CanStep /\ Res(turn) # "finN" /\ ~(Plan(turn).val /\ ValFails(valk))
    \* empty messages can't fail to be written; they are the subject of another model
    /\ mech \notin {"ANONYMOUS", "EXTERNAL"} /\ ~(mech = "GSSAPI2" /\ turn = "c" /\ cst = "ctx") /\ ~(mech \in OAuth /\ turn = "c" /\ cst = "wait")
    /\ vals' = IF Plan(turn).val THEN vals + 1 ELSE vals
    /\ slot' = IF Plan(turn).val THEN ValKeeps(valk) ELSE slot
    /\ Fail(turn, Op(turn, w)) /\ dist' = dist + 1

State(who) == IF who = "c" THEN cst ELSE sst
Garbled ==        \* what arrives makes no sense
  /\ Free /\ "garbled" \in Dists /\ msg = "full" /\ Reads(mech, turn, State(turn))
  /\ Fail(turn, Op(turn, "garbled")) /\ dist' = dist + 1 /\ UNCHANGED <<vals, slot>>
\* a callback that doesn't know, or refuses to tell: that's not the peer's fault
Silent ==
  \E p \in Wants(mech, turn, State(turn), msg) :
    /\ Free /\ "silent" \in Dists /\ CanStep
    /\ Fail(turn, Op(turn, "silent") @@ [p |-> p]) /\ dist' = dist + 1 /\ UNCHANGED <<vals, slot>>
Refusing ==
  \E p \in Wants(mech, turn, State(turn), msg) \cup Likes(mech, turn, State(turn)) :
    /\ Free /\ "refusing" \in Dists /\ CanStep
    /\ Fail(turn, Op(turn, "refusing") @@ [p |-> p]) /\ dist' = dist + 1 /\ UNCHANGED <<vals, slot>>

End == /\ turn = "end"
       /\ turn' = "printed"
       /\ PrintT(ToJson([mech |-> mech, via |-> via, val |-> valk, rejects |-> rejects, ops |-> ops,
                         client |-> cres, server |-> sres, slot |-> slot]))
       /\ UNCHANGED <<mech, via, valk, rejects, cst, sst, cres, sres, msg, n, dist, ops, vals, slot>>

Next == Step \/ Missing \/ BadBase64 \/ Calls \/ Pieces \/ Broken \/ Garbled \/ Silent \/ Refusing \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Step) /\ WF_vars(End)

------------------------------------------------------------------------------
\* C09: somebody is always able to go on, until both are done
Progress == turn \in {"c", "s"} => CanStep
Short == n <= MaxMsgs(mech)
Ended == turn \in {"end", "printed"} => \/ cres = "ok" /\ sres = "ok"
                                        \/ "fail" \in {cres, sres}
Terminates == <>(turn = "printed")
\* no message is left over
Delivered == turn = "end" /\ cres = "ok" /\ sres = "ok" => msg = "none"
\* C08
ValidatedOnce == vals <= 1 /\ (sres = "ok" /\ ~rejects => vals = 1) /\ (rejects => vals = 0)
OutcomeOnlyIfValidated == slot => vals = 1
\* C15: nothing fails without somebody's fault
Fatal == {"garbled", "silent", "refusing", "w-err", "w-zero"}
Blamed == "fail" \in {cres, sres} => (\E k \in DOMAIN ops : ops[k].op \in Fatal) \/ (vals = 1 /\ ValFails(valk))
\* C19: a rejected token is no success the server reports a result for
NoOutcomeIfRejected == rejects => ~slot
=============================================================================
