-------------------------------- MODULE Mechs -------------------------------
(* The mechanisms other than SCRAM: PLAIN (RFC 4616), LOGIN, ANONYMOUS (RFC 4505), EXTERNAL    *)
(* (RFC 4422 appendix A), XOAUTH2 and OAUTHBEARER (RFC 7628).  C describes the session, st is    *)
(* the state of the mechanism, slot the validation outcome so far, in the input (an option), ev  *)
(* the observed event, of which only freely chosen parts of the message may be used.            *)
EXTENDS Expect, Prep, JsonText

NotNul(v) == IF Has(v, 0) THEN Some(MechErr) ELSE None
FilledNotNul(v) == IF v = <<>> THEN Some(MechErr) ELSE NotNul(v)
NoSoh(v) == IF Has(v, 1) THEN Some(MechErr) ELSE None
Given(in) == in # None /\ in[1] # <<>>

------------------------------------------------------------------------------
PlainClient(C, in) ==
  LET z == Maybe(C, "AuthzId", {}, NotNul)
      u == Need(C, "AuthId", {}, FilledNotNul)
      w == Need(C, "Password", {}, FilledNotNul)
  IN With(<<z, u, w>>,
          [E0 EXCEPT !.out = Or(z.val, <<>>) \o <<0>> \o u.val[1] \o <<0>> \o w.val[1],
                     !.res = "finY", !.mayerr = Given(in)])

PlainServer(C, slot, in) ==
  IF in = None THEN NeedInput ELSE
  LET f == Split(in[1], 0)
      u == PrepOf(f[2])
      w == IF IsUtf8(f[3]) THEN PrepOf(f[3]) ELSE [v |-> "ok", s |-> f[3]]
  IN IF Len(f) # 3 THEN Reject
     ELSE IF ~IsUtf8(f[1]) \/ ~IsUtf8(f[2]) \/ f[2] = <<>> \/ f[3] = <<>> THEN Reject
     ELSE IF u.v = "bad" \/ w.v = "bad" THEN Reject
     ELSE IF u.v = "dc" \/ w.v = "dc" THEN Anything
     ELSE IF u.s = <<>> \/ w.s = <<>> THEN Reject
     ELSE Validated(C, slot, {<<"AuthzId", f[1]>>, <<"AuthId", u.s>>, <<"Password", w.s>>},
                    [E0 EXCEPT !.res = "finN"])

------------------------------------------------------------------------------
LoginClient(C, st, in) ==
  IF st.k = "init"
  THEN LET u == Need(C, "AuthId", {}, NoErr)
       IN With(<<u>>, [E0 EXCEPT !.out = u.val[1], !.st = [k |-> "pw"], !.mayerr = u.val[1] = <<>>])
  ELSE LET w == Need(C, "Password", {}, NoErr)
       IN With(<<w>>, [E0 EXCEPT !.out = w.val[1], !.res = "finY", !.mayerr = w.val[1] = <<>>])

LoginServer(C, st, slot, in) ==
  CASE st.k = "init" -> [E0 EXCEPT !.out = B("User Name") \o <<0>>, !.st = [k |-> "user"], !.mayerr = Given(in)]
    [] in = None -> NeedInput
    [] st.k = "user" -> IF ~IsUtf8(in[1]) THEN Reject
                        ELSE [E0 EXCEPT !.out = B("Password") \o <<0>>, !.st = [k |-> "pw", user |-> in[1]],
                                        !.mayerr = in[1] = <<>>]
    [] OTHER -> [Validated(C, slot, {<<"AuthId", st.user>>, <<"Password", in[1]>>}, [E0 EXCEPT !.res = "finN"])
                  EXCEPT !.mayerr = in[1] = <<>>]

------------------------------------------------------------------------------
AnonymousClient(C, in) ==
  LET t == Maybe(C, "AnonymousToken", {}, NoErr)
  IN With(<<t>>, [E0 EXCEPT !.out = Or(t.val, <<>>), !.res = "finY",
                            !.mayerr = Given(in) \/ Len(Or(t.val, <<>>)) > 255])
AnonymousServer(C, slot, in) ==
  LET t == Or(in, <<>>)
  IN IF ~IsUtf8(t) THEN Reject
     ELSE [Validated(C, slot, {<<"AnonymousToken", t>>}, [E0 EXCEPT !.res = "finN"]) EXCEPT !.mayerr = Len(t) > 255]

ExternalClient(C, in) ==
  LET z == Maybe(C, "AuthzId", {}, NoErr)
  IN With(<<z>>, [E0 EXCEPT !.out = Or(z.val, <<>>), !.res = "finY",
                            !.mayerr = Given(in) \/ Has(Or(z.val, <<>>), 0)])
ExternalServer(C, slot, in) ==
  LET z == Or(in, <<>>)
  IN IF ~IsUtf8(z) THEN Reject
     ELSE [Validated(C, slot, {<<"AuthzId", z>>}, [E0 EXCEPT !.res = "finN"]) EXCEPT !.mayerr = Has(z, 0)]

------------------------------------------------------------------------------
XOAuth2Client(C, st, in) ==
  IF st.k = "init"
  THEN LET u == Need(C, "AuthId", {}, NoSoh)
           t == Need(C, "OAuthBearerToken", {}, NoSoh)
       IN With(<<u, t>>,
            [E0 EXCEPT !.out = B("user=") \o u.val[1] \o <<1>> \o B("auth=Bearer ") \o t.val[1] \o <<1, 1>>,
                       !.st = [k |-> "wait"], !.mayerr = Given(in) \/ u.val[1] = <<>> \/ t.val[1] = <<>>])
  ELSE IF ~Given(in) THEN [E0 EXCEPT !.res = "finN"]
  ELSE IF ~IsUtf8(in[1]) THEN Reject
  ELSE With(<<Action(C, "XOAuth2Error", {}, in[1])>>, [E0 EXCEPT !.res = "finY"])

\* The verdict of the token check: accepted, or rejected with the message msg
OAuthVerdict(C, slot, ctx, r, msg, ev) ==
  LET finished == Validated(C, slot, ctx, [E0 EXCEPT !.res = "finN"])
      refused == [E0 EXCEPT !.out = msg, !.st = [k |-> "errored"]]
  IN With(<<r>>, IF r.val[1] = None THEN finished
                 ELSE IF ev.vals = <<>> THEN refused     \* whether a rejected token is validated is open
                 ELSE Validated(C, slot, ctx, refused))

XOAuth2Server(C, st, slot, in, ev) ==
  IF st.k = "errored" THEN [E0 EXCEPT !.res = "finN", !.mayerr = Given(in)]
  ELSE IF in = None THEN NeedInput ELSE
  LET m == in[1]
      k == IndexOf(m, 1)
      user == SubSeq(m, 6, k - 1)
      rest == From(m, k + 1)
      token == SubSeq(rest, 13, Len(rest) - 2)
      ctx == {<<"AuthId", user>>, <<"OAuthBearerToken", token>>}
      r == Need(C, "XOAuth2Validate", ctx, NoErr)
  IN IF k = 0 \/ ~StartsWith(m, B("user=")) \/ ~StartsWith(rest, B("auth=Bearer "))
        \/ Len(rest) < 14 \/ ~EndsWith(rest, <<1, 1>>) THEN Reject
     ELSE IF Has(token, 1) \/ ~IsUtf8(user) \/ ~IsUtf8(token) THEN Reject
     ELSE [OAuthVerdict(C, slot, ctx, r, r.val[1][1], ev) EXCEPT !.mayerr = user = <<>> \/ token = <<>>]

------------------------------------------------------------------------------
Alphas(s) == s # <<>> /\ \A k \in DOMAIN s : s[k] \in 65..90 \cup 97..122
EscapeName(s) == Cat([k \in DOMAIN s |-> CASE s[k] = 44 -> B("=2C") [] s[k] = 61 -> B("=3D") [] OTHER -> <<s[k]>>])
UnescapeName(s) ==      \* [ok, s]
  LET p == Split(s, 61)
      char(x) == CASE StartsWith(x, B("2C")) -> <<44>> [] StartsWith(x, B("3D")) -> <<61>> [] OTHER -> <<>>
      rest == Tail(p)
  IN IF \E k \in DOMAIN rest : char(rest[k]) = <<>> THEN [ok |-> FALSE, s |-> <<>>]
     ELSE [ok |-> TRUE, s |-> p[1] \o Cat([k \in DOMAIN rest |-> char(rest[k]) \o From(rest[k], 3)])]

KvEnc(kv) == Cat([j \in DOMAIN kv |-> kv[j][1] \o <<256>> \o kv[j][2] \o <<257>>])
OptEnc(o) == IF o = None THEN <<259>> ELSE <<258>> \o o[1]

OAuthBearerClient(C, st, in, ev) ==
  IF st.k = "init"
  THEN LET kvbad(kv) == IF \E j \in DOMAIN kv : \/ Has(kv[j][1], 1) \/ Has(kv[j][2], 1) \/ Has(kv[j][1], 61)
                                              \/ kv[j][1] = B("auth") THEN Some(MechErr) ELSE None
           z == Maybe(C, "AuthzId", {}, NoSoh)
           kv == Maybe(C, "OAuthBearerKV", {}, kvbad)
           t == Need(C, "OAuthBearerToken", {}, NoSoh)
           zs == Or(z.val, <<>>)
           kvs == Or(kv.val, <<>>)
       IN With(<<z, kv, t>>,
            [E0 EXCEPT !.out = B("n,") \o (IF z.val = None THEN <<>> ELSE B("a=") \o EscapeName(zs)) \o B(",")
                                \o Cat([j \in DOMAIN kvs |-> <<1>> \o kvs[j][1] \o <<61>> \o kvs[j][2]])
                                \o <<1>> \o B("auth=Bearer ") \o t.val[1] \o <<1, 1>>,
                       !.st = [k |-> "wait"],
                       !.mayerr = Given(in) \/ z.val = Some(<<>>) \/ Has(zs, 0) \/ t.val[1] = <<>>
                                  \/ \E j \in DOMAIN kvs : ~Alphas(kvs[j][1])])
  ELSE IF ~Given(in) THEN [E0 EXCEPT !.res = "finN"]
  ELSE LET e == OAuthError(in[1])
       IN CASE e.v = "bad" -> Reject
            [] e.v = "dc" -> Anything
            [] OTHER -> With(<<Action(C, "OAuthBearerErrored", {}, <<258>> \o e.status \o OptEnc(e.scope) \o OptEnc(e.conf))>>,
                             \* RFC 7628 lets the client answer with a single ^A
                             [E0 EXCEPT !.res = "finY", !.out = IF ev.out = <<1>> THEN <<1>> ELSE <<>>])

\* The parsed initial response [v, ...]: v "ok", "bad"; may: an implementation may refuse it
OAuthMsg(m) ==
  LET parts == Split(SubSeq(m, 1, Len(m) - 2), 1)
      gs2 == Split(parts[1], 44)
      z == UnescapeName(From(gs2[2], 3))
      kvs == Tail(parts)
      isauth(p) == StartsWith(p, B("auth="))
      auth == SelectSeq(kvs, isauth)
      rest == SelectSeq(kvs, LAMBDA p : ~isauth(p))
      value == From(auth[Len(auth)], 6)
      token == IF StartsWith(value, B("Bearer ")) THEN From(value, 8) ELSE value
      kv == [j \in DOMAIN rest |-> LET q == IndexOf(rest[j], 61) IN <<SubSeq(rest[j], 1, q - 1), From(rest[j], q + 1)>>]
      hasz == gs2[2] # <<>>
      ok == /\ EndsWith(m, <<1, 1>>)
            /\ Len(gs2) = 3 /\ gs2[3] = <<>> /\ gs2[1] \in {B("n"), B("y")}
            /\ hasz => StartsWith(gs2[2], B("a=")) /\ IsUtf8(gs2[2]) /\ z.ok
            /\ \A j \in DOMAIN kvs : IsUtf8(kvs[j]) /\ Has(kvs[j], 61)
            /\ auth # <<>>
  IN IF ~ok THEN [v |-> "bad"]
     ELSE [v |-> "ok", authzid |-> IF hasz THEN Some(z.s) ELSE None, token |-> token, kv |-> kv,
           may |-> \/ gs2[1] # B("n") \/ (hasz /\ z.s = <<>>) \/ (hasz /\ Has(z.s, 0)) \/ Len(auth) > 1
                   \/ ~StartsWith(value, B("Bearer ")) \/ token = <<>>
                   \/ \E j \in DOMAIN kv : ~Alphas(kv[j][1])]

OAuthBearerServer(C, st, slot, in, ev) ==
  IF st.k = "errored" THEN [E0 EXCEPT !.res = "finN", !.mayerr = Given(in) /\ in[1] # <<1>>]
  ELSE IF in = None THEN NeedInput ELSE
  LET m == OAuthMsg(in[1])
      ctx == {<<"OAuthBearerToken", m.token>>, <<"OAuthBearerKV", KvEnc(m.kv)>>}
             \cup (IF m.authzid = None THEN {} ELSE {<<"AuthzId", m.authzid[1]>>})
      r == Need(C, "OAuthBearerValidate", ctx, NoErr)
      e == r.val[1][1]                  \* [status, scope, conf]
      sent == OAuthError(ev.out)
      same == sent.v = "ok" /\ sent.status = e.status /\ sent.scope = e.scope /\ sent.conf = e.conf
  IN IF m.v = "bad" THEN Reject
     ELSE [OAuthVerdict(C, slot, ctx, r, IF same THEN ev.out ELSE <<>>, ev) EXCEPT !.mayerr = m.may]
=============================================================================
