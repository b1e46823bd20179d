----------------------------- MODULE MessageModel ----------------------------
(* Messages of the mechanisms as sequences of tokens: every message that results from a well-formed  *)
(* one by at most MaxEdits edits (a token left out, put in, replaced, doubled, exchanged with the    *)
(* next, or the message cut off).  Tokens in angle brackets stand for values that depend on the      *)
(* exchange and are filled in when the message is sent to the real code; so a message that is        *)
(* malformed is still one whose proof is right for what it says.                                    *)
(* Checked of the grammar the specification gives each mechanism: the messages it starts from are    *)
(* well-formed, and what a well-formed message is taken apart into are exactly its parts.            *)
EXTENDS Scram, TLC, Json
CONSTANTS Kinds, MaxEdits

\* bytes of a token
Bytes == ("<0>" :> <<0>>) @@ ("<1>" :> <<1>>) @@ ("<255>" :> <<255>>) @@ ("<ue>" :> <<195, 188>>)
         @@ ("<half>" :> <<195>>) @@ ("<shy>" :> <<194, 173>>) @@ ("<tab>" :> <<9>>) @@ ("<nl>" :> <<10>>) @@ ("<q>" :> <<34>>)
         \* as stand-ins
         @@ ("<c>" :> B("biws")) @@ ("<r>" :> B("abcdefghijklmnopqrstuvwxyz")) @@ ("<p>" :> B("AAAAAAAAAAAAAAAAAAAAAAAAAAA="))
         @@ ("<v>" :> B("AAAAAAAAAAAAAAAAAAAAAAAAAAA=")) @@ ("<rc>" :> B("abcdefghijklm"))
TokB(x) == IF x \in DOMAIN Bytes THEN Bytes[x] ELSE B(x)
Msg(ts) == Cat([j \in DOMAIN ts |-> TokB(ts[j])])

\* what a server may give as reason for a failure
ErrorValues == {"invalid-encoding", "extensions-not-supported", "invalid-proof", "channel-bindings-dont-match",
                "server-does-support-channel-binding", "channel-binding-not-supported", "unsupported-channel-binding-type",
                "unknown-user", "invalid-username-encoding", "no-resources", "other-error", "reason"}
Seeds(k) ==
  CASE k = "plain" -> {<<"z", "<0>", "u", "<0>", "w">>, <<"<0>", "u", "<0>", "w">>, <<"<0>", "u", "<0>", "<255>">>, <<"z", "<0>", "u", "<0>", "w", "<half>">>}
    [] k = "login" -> {<<"u">>}
    [] k = "text" -> {<<"t">>, <<"a@b">>}
    [] k = "xoauth2" -> {<<"user=", "u", "<1>", "auth=Bearer ", "t", "<1>", "<1>">>}
    [] k = "oauthbearer" -> {<<"n", ",", ",", "<1>", "auth=", "Bearer ", "t", "<1>", "<1>">>,
                             <<"n", ",", "a=", "z", ",", "<1>", "host=", "h", "<1>", "auth=", "Bearer ", "t", "<1>", "<1>">>}
                            \cup {<<"n", ",", ",", "<1>", "auth=", "Bearer ", "t", "<1>", "port=", "1", "<1>", "<1>">>}
    [] k = "cfirst" -> {<<"n", ",", ",", "n=", "u", ",", "r=", "nonce">>,
                        <<"y", ",", "a=", "z", ",", "n=", "u", ",", "r=", "nonce", ",", "x=y">>}
    [] k = "cfirst-plus" -> {<<"p=", "tls-unique", ",", ",", "n=", "u", ",", "r=", "nonce">>}
    [] k = "cfinal" -> {<<"c=", "<c>", ",", "r=", "<r>", ",", "p=", "<p>">>,
                        <<"c=", "<c>", ",", "r=", "<r>", ",", "x=y", ",", "p=", "<p>">>}
    [] k = "sfirst" -> {<<"r=", "<rc>", "ext", ",", "s=", "c2FsdA==", ",", "i=", "7">>,
                        <<"r=", "<rc>", "ext", ",", "s=", "c2FsdA==", ",", "i=", "7", ",", "x=y">>}
    [] k = "sfinal" -> {<<"v=", "<v>">>, <<"v=", "<v>", ",", "x=y">>} \cup {<<"e=", x>> : x \in ErrorValues}
    [] k = "json" -> {<<"{", "<q>", "status", "<q>", ":", "<q>", "e", "<q>", ",", "<q>", "scope", "<q>", ":", "<q>", "s", "<q>", "}">>,
                      <<"{", "<q>", "status", "<q>", ":", "<q>", "e", "<q>", "}">>}
Toks(k) ==
  CASE k \in {"plain", "login"} -> {"<0>", "u", "<255>", "<half>", "<ue>", "<shy>", "<tab>"}
    [] k = "text" -> {"<0>", "t", "<255>", "<half>", "<ue>", "<nl>"}
    [] k = "xoauth2" -> {"user=", "u", "<1>", "auth=Bearer ", "auth=", "Bearer ", "=", ",", "<0>", "<255>", "<ue>"}
    [] k = "oauthbearer" -> {"n", "y", "p=tls-unique", ",", "a=", "z", "=2C", "=2c", "=3d", "=", "<1>", "auth=", "Bearer ", "bearer ", "t", "host=", "h",
                             "<255>", "<0>", "<ue>"}
    [] k \in {"cfirst", "cfirst-plus"} -> {"n", "y", "p=", "tls-unique", ",", "a=", "z", "n=", "u", "r=", "nonce", "=2C", "=3D", "=2c", "=3d", "=", "m=x", "x=y", "<0>",
                                           "<255>", "<ue>", " "}
    [] k = "cfinal" -> {"c=", "<c>", ",", "r=", "<r>", "p=", "<p>", "m=y", "x=y", "x", "A", "=", "<255>", "<0>", "n=u"}
    [] k = "sfirst" -> {"r=", "<rc>", "ext", ",", "s=", "c2FsdA==", "i=", "7", "0", "-", "+", " ", "m=y", "x=y", "x", "=", "A", "<255>", "e=x", "99999999999"}
    [] k = "sfinal" -> {"v=", "<v>", "e=", "no-resources", ",", "x=y", "m=y", "x", "A", "=", "<255>", "V="}
    [] k = "json" -> {"{", "}", "[", "]", "<q>", "status", "scope", "openid-configuration", ":", ",", "e", "null", "1", "\\n", "\\u00fc", "\\ud83d", "\\ude00", "\\", " ", "<ue>",
                      "<255>", "<nl>", "true", "-"}

VARIABLES kind, ts, n
vars == <<kind, ts, n>>
Init == kind \in Kinds /\ ts \in Seeds(kind) /\ n = 0
Take(j) == SubSeq(ts, 1, j)
Drop(j) == SubSeq(ts, j + 1, Len(ts))
Edit(x) == ts' = x
Next == /\ n < MaxEdits /\ n' = n + 1 /\ UNCHANGED kind
        /\ \/ \E j \in DOMAIN ts : Edit(Take(j - 1) \o Drop(j))
           \/ \E j \in 0..Len(ts), t \in Toks(kind) : Edit(Take(j) \o <<t>> \o Drop(j))
           \/ \E j \in DOMAIN ts, t \in Toks(kind) : Edit(Take(j - 1) \o <<t>> \o Drop(j))
           \/ \E j \in 1..(Len(ts) - 1) : Edit(Take(j - 1) \o <<ts[j + 1], ts[j]>> \o Drop(j + 1))
           \/ \E j \in 0..(Len(ts) - 1) : Edit(Take(j))
Spec == Init /\ [][Next]_vars

M == Msg(ts)
C0 == [mech |-> "PLAIN", side |-> "server", script |-> <<>>, val |-> <<>>, cb |-> FALSE, pcb |-> <<>>, vt |-> "A", rec |-> TRUE,
       offers |-> <<>>, regs |-> <<>>, planned |-> FALSE]
Form(k, m) ==
  CASE k = "plain" -> LET e == PlainServer(C0, None, Some(m)) IN IF e.any THEN "dc" ELSE IF e.errs = {} THEN "ok" ELSE "bad"
    [] k = "login" -> IF IsUtf8(m) THEN "ok" ELSE "bad"
    [] k = "text" -> IF IsUtf8(m) THEN "ok" ELSE "bad"
    [] k = "xoauth2" -> IF XOAuth2Server(C0, [k |-> "init"], None, Some(m), [vals |-> <<>>]).errs = {AnyErr} THEN "bad" ELSE "ok"
    [] k = "oauthbearer" -> OAuthMsg(m).v
    [] k \in {"cfirst", "cfirst-plus"} -> ClientFirst(m).v
    [] k = "cfinal" -> ClientFinal(m).v
    [] k = "sfirst" -> ServerFirst(m).v
    [] k = "sfinal" -> ServerFinal(m).v
    [] k = "json" -> OAuthError(m).v
F == Form(kind, M)

SeedsGood == n = 0 => F = IF ts[1] = "e=" THEN "bad" ELSE "ok"
\* the parts are those of the message
Parts ==
  F = "ok" =>
    CASE kind = "plain" -> LET v == PlainServer(C0, None, Some(M)).vals[1]
                           IN CtxVal(v, "AuthzId")[1] = Split(M, 0)[1] /\ Len(Split(M, 0)) = 3
      [] kind \in {"cfirst", "cfirst-plus"} ->
           LET f == ClientFirst(M)
           IN /\ f.gs2 \o f.bare = M
              /\ StartsWith(f.gs2, f.flag \o B(","))
              /\ f.authzid # None => UnescapeName(EscapeName(f.authzid[1])).s = f.authzid[1]
              /\ UnescapeName(EscapeName(f.user)).s = f.user
              /\ StartsWith(f.bare, B("n=")) /\ f.user # <<>> /\ f.nonce # <<>>
      [] kind = "cfinal" -> LET f == ClientFinal(M) IN f.wo \o B(",p=") \o f.p = M /\ StartsWith(f.wo, B("c=") \o f.c \o B(",r=") \o f.nonce)
      [] kind = "sfirst" -> LET f == ServerFirst(M)
                            IN StartsWith(M, B("r=") \o f.nonce \o B(",s=") \o ToB64(f.salt) \o B(",i=")) /\ NoZeros(f.iter) = f.iter /\ f.iter # B("0")
      [] kind = "sfinal" -> StartsWith(M, B("v=") \o ToB64(ServerFinal(M).sig))
      [] kind = "oauthbearer" ->
           LET f == OAuthMsg(M)
           IN /\ EndsWith(M, <<1, 1>>) /\ ~Has(f.token, 1)
              /\ \A j \in DOMAIN f.kv : ~Has(f.kv[j][1], 61) /\ ~Has(f.kv[j][1], 1) /\ ~Has(f.kv[j][2], 1)
      [] OTHER -> TRUE
\* what has been cut off is not well-formed if something mandatory went missing
PrintInv == PrintT(ToJson([kind |-> kind, toks |-> ts, form |-> F, n |-> n]))
=============================================================================
