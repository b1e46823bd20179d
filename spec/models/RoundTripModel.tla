--------------------------- MODULE RoundTripModel ----------------------------
(* The client of the specification talking to the server of the specification: whatever the fields   *)
(* are, the server learns exactly them, or the client refuses to send anything.  A behaviour is one   *)
(* exchange about one choice of fields; it is printed with how it ends.                              *)
EXTENDS Planned, TLC, Json
CONSTANTS Mechs, MaxLen     \* of one field at a time; the others have at most one character

Toks == {B("a"), B(","), B("="), <<0>>, <<1>>, <<195, 188>>, B(" ")}
More == Toks \cup {B("=2C"), B("\""), <<194, 173>>, B("%")}
Wild == {<<255>>}            \* only in passwords
Strs(T, n) == {Cat(s) : s \in UNION {[1..m -> T] : m \in 0..n}}
Opt(S) == {None} \cup {Some(x) : x \in S}
Carriers ==
  [z |-> {"PLAIN", "EXTERNAL", "OAUTHBEARER", "SCRAM-SHA-256"}, u |-> {"PLAIN", "LOGIN", "XOAUTH2", "SCRAM-SHA-256"},
   w |-> {"PLAIN", "LOGIN"}, t |-> {"XOAUTH2", "OAUTHBEARER", "ANONYMOUS"}, kv |-> {"OAUTHBEARER"}]
UsedBy(m) == {f \in DOMAIN Carriers : m \in Carriers[f]}
One(f) == CASE f = "z" -> Opt(Strs(Toks, 1)) [] f = "kv" -> Opt({<<<<x, y>>>> : x \in Strs(Toks, 1), y \in Strs(Toks, 1)})
            [] f = "w" -> Strs(Toks \cup Wild, 1) [] OTHER -> Strs(Toks, 1)
Long(f) == CASE f = "z" -> {Some(x) : x \in Strs(More, MaxLen)}
             [] f = "w" -> Strs(More \cup Wild, MaxLen)
             [] f = "kv" -> {Some(<<<<x, y>>, <<v, w>>>>) : x, v \in {B("k"), B("auth"), B("host"), B("="), <<>>},
                                                             y, w \in {B("v"), B("="), B("Bearer x"), <<1>>, <<>>, B("a=b,")}}
             [] OTHER -> Strs(More, MaxLen)
Plain(f) == CASE f = "z" -> {None, Some(B("z"))} [] f = "kv" -> {None, Some(<<<<B("k"), B("v")>>>>)} [] OTHER -> {B("a")}
AllFields(m) ==
  LET pick(S(_)) == {g \in [z : IF "z" \in UsedBy(m) THEN S("z") ELSE {None}, u : IF "u" \in UsedBy(m) THEN S("u") ELSE {<<>>},
                            w : IF "w" \in UsedBy(m) THEN S("w") ELSE {<<>>}, t : IF "t" \in UsedBy(m) THEN S("t") ELSE {<<>>},
                            kv : IF "kv" \in UsedBy(m) THEN S("kv") ELSE {None}] : TRUE}
      long(f) == LET s(x) == IF x = f THEN Long(x) ELSE Plain(x) IN pick(s)
  IN pick(One) \cup UNION {long(f) : f \in UsedBy(m)}

SatOp(p, v) == [op |-> "sat", p |-> p, v |-> v, q |-> TRUE, f |-> <<>>, k |-> "", n |-> <<>>, e |-> <<>>,
                kv |-> <<>>, ck |-> <<>>, sk |-> <<>>, users |-> <<>>]
Script(m, f) ==
  (IF f.z = None THEN <<>> ELSE <<SatOp("AuthzId", f.z[1])>>)
  \o (IF f.kv = None THEN <<>> ELSE <<[SatOp("OAuthBearerKV", <<>>) EXCEPT !.kv = f.kv[1]]>>)
  \o (IF m \in Carriers.u THEN <<SatOp("AuthId", f.u)>> ELSE <<>>)
  \o (IF m \in Carriers.w THEN <<SatOp("Password", f.w)>> ELSE <<>>)
  \o (IF m = "ANONYMOUS" THEN <<SatOp("AnonymousToken", f.t)>> ELSE IF m \in Carriers.t THEN <<SatOp("OAuthBearerToken", f.t)>> ELSE <<>>)
Env(m, side, script) ==
  [mech |-> m, side |-> side, script |-> script, val |-> <<>>, cb |-> FALSE, pcb |-> <<>>, vt |-> "N", rec |-> TRUE,
   offers |-> <<m>>, regs |-> <<m>>, planned |-> FALSE]
\* the server accepts every token
ServerScript == <<SatOp("XOAuth2Validate", <<>>), SatOp("OAuthBearerValidate", <<>>)>>
Ev0 == [out |-> <<>>, vals |-> <<>>]
Nonce == B("abcdefghijklmnopqrstuvwxyz")

VARIABLES mech, f, cst, vst, msg, turn, out, may, learned
vars == <<mech, f, cst, vst, msg, turn, out, may, learned>>
Init == /\ mech \in Mechs /\ f \in AllFields(mech)
        /\ cst = InitSt /\ vst = InitSt /\ msg = None
        /\ turn = (IF mech = "LOGIN" THEN "server" ELSE "client")
        /\ out = "open" /\ may = FALSE /\ learned = {}

Over(o) == /\ out' = o /\ turn' = "nobody"
           /\ PrintT(ToJson([mech |-> mech, z |-> f.z, u |-> f.u, w |-> f.w, t |-> f.t, kv |-> f.kv, out |-> o, may |-> may']))
Client ==
  /\ turn = "client"
  /\ LET E == MechStep(Env(mech, "client", Script(mech, f)), cst, None, msg, Ev0)
         scram == mech = "SCRAM-SHA-256"
     IN /\ may' = (may \/ E.mayerr)
        /\ UNCHANGED <<mech, f, vst, learned>>
        /\ IF E.errs # {} THEN Over("refused") /\ UNCHANGED <<cst, msg>>
           ELSE IF E.res = "finN" THEN Over("ok") /\ UNCHANGED <<cst, msg>>
           ELSE /\ cst' = E.st /\ turn' = "server" /\ UNCHANGED out
                /\ msg' = Some(IF scram THEN E.out \o Nonce ELSE E.out)
Server ==
  /\ turn = "server"
  /\ LET E == MechStep(Env(mech, "server", ServerScript), vst, None, msg, Ev0)
         ctxs == UNION ({E.reqs[j].ctx : j \in DOMAIN E.reqs} \cup Range(E.vals))
     IN /\ may' = (may \/ E.mayerr \/ E.any)
        /\ UNCHANGED <<mech, f, cst>>
        /\ IF E.any THEN Over("unknown") /\ UNCHANGED <<vst, msg, learned>>
           ELSE IF E.errs # {} THEN Over("rejected") /\ UNCHANGED <<vst, msg, learned>>
           ELSE /\ vst' = E.st /\ learned' = learned \cup ctxs
                /\ IF E.res = "run" /\ mech # "SCRAM-SHA-256"
                   THEN turn' = "client" /\ msg' = Some(E.out) /\ UNCHANGED out
                   ELSE Over("ok") /\ UNCHANGED msg
Next == Client \/ Server
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* The identities are the client's                                                                  *)
Told ==
  CASE mech = "PLAIN" -> {<<"AuthzId", Or(f.z, <<>>)>>, <<"AuthId", PrepOf(f.u).s>>,
                          <<"Password", IF IsUtf8(f.w) THEN PrepOf(f.w).s ELSE f.w>>}
    [] mech = "LOGIN" -> {<<"AuthId", f.u>>, <<"Password", f.w>>}
    [] mech = "ANONYMOUS" -> {<<"AnonymousToken", f.t>>}
    [] mech = "EXTERNAL" -> {<<"AuthzId", Or(f.z, <<>>)>>}
    [] mech = "XOAUTH2" -> {<<"AuthId", f.u>>, <<"OAuthBearerToken", f.t>>}
    [] mech = "OAUTHBEARER" -> {<<"OAuthBearerToken", f.t>>, <<"OAuthBearerKV", KvEnc(Or(f.kv, <<>>))>>}
                               \cup (IF f.z = None THEN {} ELSE {<<"AuthzId", f.z[1]>>})
    [] OTHER -> {<<"AuthId", f.u>>} \cup (IF f.z = None THEN {} ELSE {<<"AuthzId", f.z[1]>>})
Faithful == out = "ok" => learned = Told
(* Nothing is refused but what can't be carried                                                     *)
Carried(s, seps) == \A j \in DOMAIN s : s[j] \notin seps
Kvs == Or(f.kv, <<>>)
Carriable ==
  CASE mech = "PLAIN" -> Carried(Or(f.z, <<>>) \o f.u \o f.w, {0}) /\ f.u # <<>> /\ f.w # <<>>
    [] mech = "XOAUTH2" -> Carried(f.u \o f.t, {1})
    [] mech = "OAUTHBEARER" -> /\ Carried(Or(f.z, <<>>) \o f.t, {1})
                               /\ \A j \in DOMAIN Kvs : /\ Carried(Kvs[j][1], {1, 61}) /\ Carried(Kvs[j][2], {1}) /\ Kvs[j][1] # B("auth")
    [] mech = "SCRAM-SHA-256" -> f.u # <<>> /\ f.z # Some(<<>>) /\ Carried(f.u \o Or(f.z, <<>>), {0})
    [] OTHER -> TRUE
Honoured == (out = "refused") => ~Carriable
Refused == ~Carriable => out \in {"open", "refused"}
\* only string preparation stands between a client's message and the server
Understood == out = "rejected" => mech = "PLAIN" /\ (PrepOf(f.u).v = "bad" \/ (IsUtf8(f.w) /\ PrepOf(f.w).v = "bad") \/ <<>> \in {PrepOf(f.u).s, PrepOf(f.w).s})
=============================================================================
