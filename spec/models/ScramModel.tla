----------------------------- MODULE ScramModel ------------------------------
(* SCRAM between a client and a server across a network the attacker owns (symbolic).             *)
(* The attacker records everything, alters, drops, replays and exchanges messages of an earlier   *)
(* completed exchange (C0, S0) and of a second server session (S2) and can build messages of its   *)
(* own with secrets that are not the user's.  A behaviour is one exchange with at most MaxFaults    *)
(* manipulations; each is printed with how the client's and the server's session must end.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxFaults,     \* manipulated messages per exchange
          Family         \* which configurations: "auth", "bind"

(* plus: mechanism used; con: client would bind; offered: the PLUS variant was offered (as the     *)
(* client sees it); splus: the server supports the PLUS variant; cbind/sbind: binding data held    *)
(* <<type, data>> or none; user/pw: what the client logs in with; secret: the form it holds it in   *)
AuthConfigs ==
  [plus : {FALSE}, con : {FALSE}, offered : {FALSE}, splus : {FALSE}, cbind : {<<"none", "">>},
   sbind : {<<"none", "">>}, user : {"alice", "eve"}, pw : {"right", "wrong"}, secret : {"pw", "salted", "keys"},
   authz : BOOLEAN]
BindConfigs ==
  {c \in [plus : BOOLEAN, con : BOOLEAN, offered : BOOLEAN, splus : BOOLEAN,
          cbind : {<<"exporter", "d1">>, <<"unique", "d1">>, <<"own", "d1">>, <<"none", "">>},
          sbind : {<<"exporter", "d1">>, <<"exporter", "d2">>, <<"unique", "d1">>, <<"own", "d1">>, <<"none", "">>},
          user : {"alice"}, pw : {"right"}, secret : {"pw"}, authz : {FALSE}] :
     \* a client only starts PLUS if it would bind, and was offered it; the attacker may have changed the offer
     /\ c.plus => c.con /\ c.offered
     /\ ~c.plus /\ c.con => ~c.offered}
Configs == IF Family = "auth" THEN AuthConfigs ELSE BindConfigs

Unset == [k |-> "none"]
VARIABLES cfg, stage, acts, faults,
          cf, sf, cl, sl,          \* messages as sent
          rcf, rsf, rcl,           \* as received
          cres, sres
vars == <<cfg, stage, acts, faults, cf, sf, cl, sl, rcf, rsf, rcl, cres, sres>>

------------------------------------------------------------------------------
Bare(m) == [user |-> m.user, nonce |-> m.nonce, ext |-> m.ext]
Wo(m) == [cb |-> m.cb, nonce |-> m.nonce, ext |-> m.ext]
Proof(key, tr) == [t |-> "proof", key |-> key, tr |-> tr]
Sig(key, tr) == [t |-> "sig", key |-> key, tr |-> tr]
Junk == [t |-> "junk"]
Key(pw, salt, iter) == <<pw, salt, iter>>
\* the account database
Salt(u) == IF u = "alice" THEN "salt1" ELSE "fakesalt"
Iter(u) == IF u = "alice" THEN "iter1" ELSE "fakeiter"
Known(u) == u = "alice"
StoredKey(u) == Key("right", "salt1", "iter1")

\* the key a client uses when told this salt and iteration count
ClientKey(salt, iter) == IF cfg.secret = "pw" THEN Key(cfg.pw, salt, iter) ELSE Key(cfg.pw, "salt1", "iter1")

\* nonces are sequences of parts; LastTo alters the last one
LastTo(n, x) == [n EXCEPT ![Len(n)] = @ \o x]
Extends(n, p) == Len(n) > Len(p) /\ SubSeq(n, 1, Len(p)) = p

Honest == [flag |-> "n", authz |-> "", user |-> "alice", nonce |-> <<"cn0">>, ext |-> <<>>, ok |-> TRUE]
Sf0 == [nonce |-> <<"cn0", "sn0">>, salt |-> "salt1", iter |-> "iter1", ext |-> <<>>, ok |-> TRUE]
Cl0 == LET wo == [cb |-> [gs2 |-> <<"n", "">>, data |-> ""], nonce |-> <<"cn0", "sn0">>, ext |-> <<>>]
       IN [cb |-> wo.cb, nonce |-> wo.nonce, ext |-> wo.ext, ok |-> TRUE,
           proof |-> Proof(Key("right", "salt1", "iter1"), <<Bare(Honest), Sf0, wo>>)]
Sl0 == [ok |-> TRUE, sig |-> Sig(Key("right", "salt1", "iter1"), <<Bare(Honest), Sf0, Wo(Cl0)>>)]

CbFlag == IF cfg.plus THEN "p=" \o cfg.cbind[1] ELSE IF cfg.con /\ ~cfg.offered THEN "y" ELSE "n"
Names(flag) == flag \notin {"n", "y"}
SrvData(flag) == IF Names(flag) /\ flag = "p=" \o cfg.sbind[1] THEN cfg.sbind[2] ELSE ""

------------------------------------------------------------------------------
Init == /\ cfg \in Configs
        /\ stage = "start" /\ acts = <<>> /\ faults = 0
        /\ cf = Unset /\ sf = Unset /\ cl = Unset /\ sl = Unset
        /\ rcf = Unset /\ rsf = Unset /\ rcl = Unset
        /\ cres = "open" /\ sres = "open"

Start ==
  /\ stage = "start"
  /\ IF cfg.plus /\ cfg.cbind[1] = "none"
     THEN /\ cres' = "fail" /\ stage' = "cf" /\ UNCHANGED cf
     ELSE /\ cf' = [flag |-> CbFlag, authz |-> IF cfg.authz THEN "other" ELSE "", user |-> cfg.user,
                    nonce |-> <<"cn">>, ext |-> <<>>, ok |-> TRUE]
          /\ stage' = "cf" /\ UNCHANGED cres
  /\ UNCHANGED <<cfg, acts, faults, sf, cl, sl, rcf, rsf, rcl, sres>>

\* the attacker's ways with each message: name |-> what arrives
CfWays ==
  IF cf = Unset THEN {<<"none", Unset>>, <<"replay", Honest>>}
  ELSE {<<"same", cf>>, <<"none", Unset>>, <<"replay", Honest>>,
        <<"flag-n", [cf EXCEPT !.flag = "n"]>>, <<"flag-y", [cf EXCEPT !.flag = "y"]>>,
        <<"flag-p-exporter", [cf EXCEPT !.flag = "p=exporter"]>>, <<"flag-p-unique", [cf EXCEPT !.flag = "p=unique"]>>,
        <<"authz", [cf EXCEPT !.authz = "admin"]>>, <<"user-eve", [cf EXCEPT !.user = "eve"]>>,
        <<"user-alice", [cf EXCEPT !.user = "alice"]>>,
        <<"nonce-flip", [cf EXCEPT !.nonce = <<"cn'">>]>>, <<"nonce-cut", [cf EXCEPT !.nonce = <<"cn-">>]>>,
        <<"nonce-app", [cf EXCEPT !.nonce = <<"cn", "+">>]>>,
        <<"ext", [cf EXCEPT !.ext = <<"x">>]>>, <<"mext", [cf EXCEPT !.ok = FALSE]>>}
\* what a server does not answer
Refused(m) == \/ ~m.ok
              \/ m.flag = "y" /\ (cfg.plus \/ cfg.splus)
              \/ m.flag = "n" /\ cfg.plus
              \/ Names(m.flag) /\ SrvData(m.flag) = ""
SfWays ==
  (IF cf = Unset \/ cres # "open" THEN {<<"none", Unset>>}
   ELSE {<<"none", Unset>>, <<"replay", Sf0>>,
         \* an attacker posing as the server
         <<"pose", [nonce |-> cf.nonce \o <<"atk">>, salt |-> "saltA", iter |-> "iterA", ext |-> <<>>, ok |-> TRUE]>>})
  \cup
  \* a second server is given the client's message, and answers
  (IF cf = Unset \/ cres # "open" \/ Refused(cf) THEN {}
   ELSE {<<"fork", [nonce |-> cf.nonce \o <<"sn2">>, salt |-> Salt(cf.user), iter |-> Iter(cf.user), ext |-> <<>>, ok |-> TRUE]>>})
  \cup
  (IF sf = Unset \/ cf = Unset \/ cres # "open" THEN {}
   ELSE {<<"same", sf>>,
         <<"nonce-flip", [sf EXCEPT !.nonce = LastTo(@, "'")]>>, <<"nonce-flip-client", [sf EXCEPT !.nonce[1] = @ \o "'"]>>,
         <<"nonce-client-only", [sf EXCEPT !.nonce = cf.nonce]>>,
         <<"nonce-app", [sf EXCEPT !.nonce = LastTo(@, "+")]>>,
         <<"salt", [sf EXCEPT !.salt = "saltB"]>>, <<"iter", [sf EXCEPT !.iter = "iterB"]>>,
         <<"salt-bad", [sf EXCEPT !.ok = FALSE]>>, <<"iter-zero", [sf EXCEPT !.ok = FALSE]>>,
         <<"iter-sign", [sf EXCEPT !.ok = FALSE]>>, <<"mext", [sf EXCEPT !.ok = FALSE]>>,
         <<"ext", [sf EXCEPT !.ext = <<"x">>]>>})
\* someone who knows the password sends something else than the protocol asks for
Insider(m) == [m EXCEPT !.proof = Proof(StoredKey("alice"), <<Bare(rcf), sf, Wo(m)>>)]
Proper == [cb |-> [gs2 |-> <<rcf.flag, rcf.authz>>, data |-> SrvData(rcf.flag)], nonce |-> sf.nonce, ext |-> <<>>,
           ok |-> TRUE, proof |-> Junk]
ClWays ==
  (IF sf = Unset \/ sres # "open" THEN {<<"none", Unset>>}
   ELSE {<<"none", Unset>>, <<"replay", Cl0>>,
         <<"insider", Insider(Proper)>>,
         <<"insider-cb-flip", Insider([Proper EXCEPT !.cb.data = @ \o "'"])>>,
         <<"insider-cb-cut", Insider([Proper EXCEPT !.cb.data = @ \o "-"])>>,
         <<"insider-cb-app", Insider([Proper EXCEPT !.cb.data = @ \o "+"])>>,
         <<"insider-cb-empty", Insider([Proper EXCEPT !.cb = [gs2 |-> <<"", "">>, data |-> ""]])>>,
         <<"insider-cb-header", Insider([Proper EXCEPT !.cb.gs2[2] = @ \o "x"])>>,
         <<"insider-nonce-flip", Insider([Proper EXCEPT !.nonce = LastTo(@, "'")])>>,
         <<"insider-nonce-flip-client", Insider([Proper EXCEPT !.nonce[1] = @ \o "'"])>>,
         <<"insider-nonce-cut", Insider([Proper EXCEPT !.nonce = LastTo(@, "-")])>>,
         <<"insider-nonce-app", Insider([Proper EXCEPT !.nonce = LastTo(@, "+")])>>,
         <<"insider-nonce-client-only", Insider([Proper EXCEPT !.nonce = rcf.nonce])>>,
         <<"insider-nonce-empty", Insider([Proper EXCEPT !.nonce = <<>>])>>,
         <<"insider-ext", Insider([Proper EXCEPT !.ext = <<"x">>])>>,
         <<"insider-mext", [Proper EXCEPT !.ok = FALSE]>>,
         \* the attacker answers the server with a secret it made up, or the stored key as client key
         <<"pose", [cb |-> [gs2 |-> <<rcf.flag, rcf.authz>>, data |-> SrvData(rcf.flag)], nonce |-> sf.nonce, ext |-> <<>>,
                    ok |-> TRUE, proof |-> Junk]>>,
         <<"pose-stored", [cb |-> [gs2 |-> <<rcf.flag, rcf.authz>>, data |-> SrvData(rcf.flag)], nonce |-> sf.nonce,
                    ext |-> <<>>, ok |-> TRUE, proof |-> Junk]>>})
  \cup
  (IF cl = Unset \/ sf = Unset \/ sres # "open" THEN {}
   ELSE {<<"same", cl>>,
         <<"cb-flip", [cl EXCEPT !.cb.data = @ \o "'"]>>, <<"cb-n", [cl EXCEPT !.cb = [gs2 |-> <<"n", "">>, data |-> ""]]>>,
         <<"cb-y", [cl EXCEPT !.cb = [gs2 |-> <<"y", "">>, data |-> ""]]>>,
         \* what the server would like to see there
         <<"cb-want", [cl EXCEPT !.cb = [gs2 |-> <<rcf.flag, rcf.authz>>, data |-> SrvData(rcf.flag)]]>>,
         <<"cb-app", [cl EXCEPT !.cb.data = @ \o "+"]>>, <<"cb-empty", [cl EXCEPT !.cb = [gs2 |-> <<"", "">>, data |-> ""]]>>,
         <<"nonce-flip", [cl EXCEPT !.nonce = LastTo(@, "'")]>>, <<"nonce-cut", [cl EXCEPT !.nonce = LastTo(@, "-")]>>,
         <<"nonce-client-only", [cl EXCEPT !.nonce = cf.nonce]>>, <<"nonce-app", [cl EXCEPT !.nonce = LastTo(@, "+")]>>,
         \* the nonce the server has sent
         <<"nonce-want", [cl EXCEPT !.nonce = sf.nonce]>>,
         <<"proof-flip", [cl EXCEPT !.proof = Junk]>>, <<"proof-cut", [cl EXCEPT !.proof = Junk]>>,
         <<"proof-app", [cl EXCEPT !.proof = Junk]>>, <<"proof-empty", [cl EXCEPT !.proof = Junk]>>,
         <<"proof-replay", [cl EXCEPT !.proof = Cl0.proof]>>,
         <<"ext", [cl EXCEPT !.ext = <<"x">>]>>, <<"mext", [cl EXCEPT !.ok = FALSE]>>,
         <<"no-proof", [cl EXCEPT !.ok = FALSE]>>})
SlWays ==
  (IF cl = Unset \/ cres # "open" THEN {<<"none", Unset>>}
   ELSE {<<"none", Unset>>, <<"replay", Sl0>>, <<"error", [ok |-> FALSE]>>, <<"empty", [ok |-> FALSE]>>,
         <<"pose", [ok |-> TRUE, sig |-> Junk]>>, <<"echo-proof", [ok |-> TRUE, sig |-> cl.proof]>>})
  \cup
  (IF sl = Unset \/ cl = Unset \/ cres # "open" THEN {}
   ELSE {<<"same", sl>>, <<"sig-flip", [sl EXCEPT !.sig = Junk]>>, <<"sig-cut", [sl EXCEPT !.sig = Junk]>>,
         <<"sig-app", [sl EXCEPT !.sig = Junk]>>, <<"sig-empty", [sl EXCEPT !.sig = Junk]>>,
         <<"ext", sl>>, <<"mext", [sl EXCEPT !.ok = FALSE]>>})

\* manipulating costs one of the faults; withholding is free but ends it all
Cost(w) == IF w \in {"same", "none"} THEN 0 ELSE 1
Pick(ways, w, m) ==
  /\ <<w, m>> \in ways
  /\ faults + Cost(w) <= MaxFaults
  /\ faults' = faults + Cost(w)
  /\ acts' = Append(acts, w)

ServerFirst ==
  /\ stage = "cf" /\ stage' = "sf"
  /\ \E x \in CfWays :
      LET w == x[1] m == x[2]
          refused == Refused(m)
      IN /\ Pick(CfWays, w, m)
         /\ w # "same" /\ w # "none" => m # cf         \* no-ops are not manipulations
         /\ IF m = Unset THEN UNCHANGED <<rcf, sf, sres>>
            ELSE /\ rcf' = m
                 /\ IF refused THEN sres' = "fail" /\ UNCHANGED sf
                    ELSE /\ sf' = [nonce |-> m.nonce \o <<"sn">>, salt |-> Salt(m.user), iter |-> Iter(m.user),
                                   ext |-> <<>>, ok |-> TRUE]
                         /\ UNCHANGED sres
  /\ UNCHANGED <<cfg, cf, cl, sl, rsf, rcl, cres>>

ClientFinal ==
  /\ stage = "sf" /\ stage' = "cl"
  /\ \E x \in SfWays :
      LET w == x[1] m == x[2]
          good == m.ok /\ Extends(m.nonce, cf.nonce)
          wo == [cb |-> [gs2 |-> <<cf.flag, cf.authz>>, data |-> IF Names(cf.flag) THEN cfg.cbind[2] ELSE ""],
                 nonce |-> m.nonce, ext |-> <<>>]
      IN /\ Pick(SfWays, w, m)
         /\ IF m = Unset THEN UNCHANGED <<rsf, cl, cres>>
            ELSE /\ rsf' = m
                 /\ IF ~good THEN cres' = "fail" /\ UNCHANGED cl
                    ELSE /\ cl' = [cb |-> wo.cb, nonce |-> wo.nonce, ext |-> <<>>, ok |-> TRUE,
                                   proof |-> Proof(ClientKey(m.salt, m.iter), <<Bare(cf), m, wo>>)]
                         /\ UNCHANGED cres
  /\ UNCHANGED <<cfg, cf, sf, sl, rcf, rcl, sres>>

ServerFinal ==
  /\ stage = "cl" /\ stage' = "sl"
  /\ \E x \in ClWays :
      LET w == x[1] m == x[2]
          tr == <<Bare(rcf), sf, Wo(m)>>
          good == /\ m.ok /\ Known(rcf.user) /\ m.nonce = sf.nonce
                  /\ m.cb = [gs2 |-> <<rcf.flag, rcf.authz>>, data |-> SrvData(rcf.flag)]
                  /\ m.proof = Proof(StoredKey(rcf.user), tr)
      IN /\ Pick(ClWays, w, m)
         /\ w \notin {"same", "none"} => m # cl
         /\ IF m = Unset THEN UNCHANGED <<rcl, sl, sres>>
            ELSE /\ rcl' = m
                 /\ IF ~good THEN sres' = "fail" /\ UNCHANGED sl
                    ELSE sres' = "ok" /\ sl' = [ok |-> TRUE, sig |-> Sig(StoredKey(rcf.user), tr)]
  /\ UNCHANGED <<cfg, cf, sf, cl, rcf, rsf, cres>>

ClientDone ==
  /\ stage = "sl" /\ stage' = "end"
  /\ \E x \in SlWays :
      LET w == x[1] m == x[2]
          good == m.ok /\ m.sig = Sig(ClientKey(rsf.salt, rsf.iter), <<Bare(cf), rsf, Wo(cl)>>)
      IN /\ Pick(SlWays, w, m)
         /\ IF m = Unset THEN UNCHANGED cres
            ELSE cres' = IF good THEN "ok" ELSE "fail"
         /\ PrintT(ToJson([cfg |-> cfg, acts |-> acts', client |-> cres', server |-> sres]))
  /\ UNCHANGED <<cfg, cf, sf, cl, sl, rcf, rsf, rcl, sres>>

Next == Start \/ ServerFirst \/ ClientFinal \/ ServerFinal \/ ClientDone
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
ByInsider == Len(acts) >= 3 /\ acts[3] \in {"insider", "insider-ext"}
(* C01: the server is only ever convinced by the user, about this very exchange                   *)
ServerConvinced ==
  sres = "ok" => /\ Known(rcf.user) /\ rcl.nonce = sf.nonce
                 /\ \/ ByInsider
                    \/ cfg.pw = "right" /\ rcf = cf /\ rsf = sf /\ rcl = cl
(* C02: the client only by a server that holds the user's keys, has validated it, and saw the same  *)
ClientConvinced ==
  cres = "ok" => /\ sres = "ok" /\ rcf = cf /\ rsf = sf
                 /\ rcl = cl
(* C02: nobody gets a proof out of the client that doesn't know its nonce                          *)
ProofOnlyForOwnNonce == cl # Unset => rsf.ok /\ Extends(rsf.nonce, cf.nonce)
(* C03: both ends have the same channel, if one of them binds                                      *)
Bound == (sres = "ok" /\ (cfg.plus \/ Names(rcf.flag)) /\ ~ByInsider)
         => (Names(cf.flag) /\ cf.flag = rcf.flag /\ cfg.cbind[2] = SrvData(rcf.flag))
(* C03: hiding the PLUS variant from a client that would bind is noticed                           *)
NoDowngrade == cfg.con /\ cfg.splus /\ ~cfg.plus => (sres # "ok" \/ ByInsider) /\ cres # "ok"
(* C04: nothing of the earlier exchange is of any use                                              *)
NoReplay == (\E j \in DOMAIN acts : acts[j] \in {"replay", "proof-replay"}) /\ stage = "end" => ~(sres = "ok" /\ cres = "ok")
(* completeness: undisturbed exchanges of people who share a password work                         *)
Complete == (stage = "end" /\ (\A j \in DOMAIN acts : acts[j] = "same"))
            => (cres = "ok" /\ sres = "ok")
                = (cfg.pw = "right" /\ cfg.user = "alice" /\ (cfg.plus => cfg.cbind = cfg.sbind)
                   /\ ~(cfg.con /\ ~cfg.plus /\ cfg.splus))
=============================================================================
