-------------------------------- MODULE Scram -------------------------------
(* SCRAM (RFC 5802, RFC 7677) with real bytes: messages, keys, both state machines.             *)
EXTENDS Mechs

Alg(mech) == CASE mech \in {"SCRAM-SHA-1", "SCRAM-SHA-1-PLUS"} -> "1"
               [] mech \in {"SCRAM-SHA-256", "SCRAM-SHA-256-PLUS"} -> "256"
               [] OTHER -> "512"
ScramMechs == {"SCRAM-SHA-1", "SCRAM-SHA-1-PLUS", "SCRAM-SHA-256", "SCRAM-SHA-256-PLUS", "SCRAM-SHA-512", "SCRAM-SHA-512-PLUS"}
IsPlus(mech) == mech \in {"SCRAM-SHA-1-PLUS", "SCRAM-SHA-256-PLUS", "SCRAM-SHA-512-PLUS"}
PlusOf(mech) == CASE Alg(mech) = "1" -> "SCRAM-SHA-1-PLUS" [] Alg(mech) = "256" -> "SCRAM-SHA-256-PLUS"
                  [] OTHER -> "SCRAM-SHA-512-PLUS"
HLen(alg) == CASE alg = "1" -> 20 [] alg = "256" -> 32 [] OTHER -> 64
NonceLen == 24     \* at least

Printable(s) == \A k \in DOMAIN s : s[k] \in 33..126 /\ s[k] # 44
Fields(m) == Split(m, 44)
IsAttr(f, a) == Len(f) >= 2 /\ f[1] = B(a)[1] /\ f[2] = 61
Val(f) == From(f, 3)
\* optional extensions; attribute names this mechanism gives a meaning may be refused
ExtOk(f) == /\ Len(f) >= 3 /\ f[2] = 61 /\ f[1] \in 65..90 \cup 97..122 /\ f[1] # 109
            /\ ~Has(f, 0) /\ IsUtf8(f)
Reserved(f) == f[1] \in {97, 110, 114, 99, 115, 105, 112, 118, 101}
Exts(fs) == Cat([j \in DOMAIN fs |-> <<44>> \o fs[j]])

SaltedPw(alg, pw, salt, iter) == Hi(alg, pw, salt, iter)
Keys(alg, salted) == [ck |-> Hmac(alg, salted, B("Client Key")), sk |-> Hmac(alg, salted, B("Server Key"))]
Proof(alg, ck, msg) == Xor(ck, Hmac(alg, Hash(alg, ck), msg))

NameRefused(v) == FilledNotNul(v)

------------------------------------------------------------------------------
(* Client.  States: init; sfirst [gs2cb, bare, nonce]; sfinal [sig, ck, sk, ctx]              *)
\* `y`: channel binding was possible, but the server did not offer it
Flag(C) == IF C.cb /\ PlusOf(C.mech) \notin Range(C.offers) THEN B("y") ELSE B("n")

ScramClientFirst(C, in, ev) ==
  LET plus == IsPlus(C.mech)
      ovr == Maybe(C, "OverrideCBType", {}, NoErr)
      named == plus /\ ovr.val # None
      exp == CbData(C, IF named THEN ovr.val[1] ELSE B("tls-exporter"), {}, named)
      uniq == CbData(C, B("tls-unique"), {}, TRUE)
      useuniq == ~named /\ exp.errs = {} /\ exp.val = None
      cb == IF useuniq THEN uniq ELSE exp
      type == CASE named -> ovr.val[1] [] useuniq -> B("tls-unique") [] OTHER -> B("tls-exporter")
      z == Maybe(C, "AuthzId", {}, NameRefused)
      u == Need(C, "AuthId", {}, NameRefused)
      cbreqs == CASE ~plus -> <<>>
                  [] ovr.errs # {} -> <<ovr>>
                  [] OTHER -> <<ovr>> \o exp.reqs \o (IF useuniq THEN uniq.reqs ELSE <<>>)
      cberrs == CASE ~plus -> {} [] ovr.errs # {} -> ovr.errs [] OTHER -> cb.errs
      reqs == cbreqs \o <<z, u>>
      errs == cberrs \cup z.errs \cup u.errs
      gs2 == (IF plus THEN B("p=") \o type ELSE Flag(C)) \o B(",")
             \o (IF z.val = None THEN <<>> ELSE B("a=") \o EscapeName(z.val[1])) \o B(",")
      head == gs2 \o B("n=") \o EscapeName(u.val[1]) \o B(",r=")
      \* the nonce is the client's choice
      nonce == IF StartsWith(ev.out, head) THEN From(ev.out, Len(head) + 1) ELSE <<>>
      good == Len(nonce) >= NonceLen /\ Printable(nonce)
  IN IF errs # {} THEN [E0 EXCEPT !.errs = errs, !.reqs = reqs]
     ELSE [E0 EXCEPT !.reqs = reqs, !.out = head \o nonce, !.mayerr = Given(in),
             !.st = [k |-> "sfirst", gs2cb |-> gs2 \o (IF plus THEN cb.val[1] ELSE <<>>),
                     bare |-> From(head, Len(gs2) + 1) \o nonce, nonce |-> nonce],
             !.devs = IF StartsWith(ev.out, head) /\ ~good THEN {"nonce"} ELSE {},
             !.fresh = <<nonce>>]

ServerFirst(m) ==
  LET f == Fields(m)
      ext == SubSeq(f, 4, Len(f))
      ok == /\ Len(f) >= 3 /\ IsAttr(f[1], "r") /\ IsAttr(f[2], "s") /\ IsAttr(f[3], "i")
            /\ Printable(Val(f[1])) /\ IsB64(Val(f[2]))
            /\ IsDigits(Val(f[3])) /\ IsU32(Val(f[3])) /\ NoZeros(Val(f[3])) # <<48>>
            /\ \A j \in DOMAIN ext : ExtOk(ext[j])
  IN IF ~ok THEN [v |-> "bad"]
     ELSE [v |-> "ok", nonce |-> Val(f[1]), salt |-> UnB64(Val(f[2])), iter |-> NoZeros(Val(f[3])),
           may |-> Val(f[3])[1] = 48 \/ Val(f[2]) = <<>> \/ \E j \in DOMAIN ext : Reserved(ext[j])]

ScramClientFinal(C, st, in) ==
  IF in = None THEN NeedInput ELSE
  LET alg == Alg(C.mech)
      m == ServerFirst(in[1])
      extends == StartsWith(m.nonce, st.nonce) /\ Len(m.nonce) > Len(st.nonce)
      ctx == {<<"Salt", m.salt>>, <<"Iterations", m.iter>>}
      wrong(v) == IF Len(v.ck) = HLen(alg) /\ Len(v.sk) = HLen(alg) THEN None ELSE Some(ErrN("novalue", <<>>))
      empty(v) == IF v = <<>> THEN Some(ErrN("novalue", <<>>)) ELSE None
      r1 == Maybe(C, "ScramCachedPassword", ctx, wrong)
      r2 == Maybe(C, "SaltedPassword", ctx, empty)
      r3 == Need(C, "Password", ctx, NoErr)
      two == r1.errs = {} /\ r1.val = None
      three == two /\ r2.errs = {} /\ r2.val = None
      reqs == <<r1>> \o (IF two THEN <<r2>> ELSE <<>>) \o (IF three THEN <<r3>> ELSE <<>>)
      keys == IF ~two THEN r1.val[1]
              ELSE IF ~three THEN Keys(alg, r2.val[1])
              ELSE Keys(alg, SaltedPw(alg, r3.val[1], m.salt, NatOf(m.iter)))
      wo == B("c=") \o ToB64(st.gs2cb) \o B(",r=") \o m.nonce
      msg == st.bare \o B(",") \o in[1] \o B(",") \o wo
      out == wo \o B(",p=") \o ToB64(Proof(alg, keys.ck, msg))
  IN IF m.v = "bad" THEN Reject
     ELSE IF ~extends THEN Reject
     ELSE [With(reqs, [E0 EXCEPT !.out = out,
                         !.st = [k |-> "sfinal", sig |-> Hmac(alg, keys.sk, msg), ck |-> keys.ck, sk |-> keys.sk, ctx |-> ctx]])
            EXCEPT !.mayerr = m.may, !.ord = TRUE]

ServerFinal(m) ==
  LET f == Fields(m)
      ok == /\ IsAttr(f[1], "v") /\ IsB64(Val(f[1]))
            /\ \A j \in 2..Len(f) : ExtOk(f[j])
  IN IF ~ok THEN [v |-> "bad"] ELSE [v |-> "ok", sig |-> UnB64(Val(f[1])), may |-> \E j \in 2..Len(f) : Reserved(f[j])]

ScramClientDone(C, st, in) ==
  IF in = None THEN NeedInput ELSE
  LET m == ServerFinal(in[1])
      \* the keys are offered, the callback's reaction does not matter
      offer == [Action(C, "ScramCachedPassword", st.ctx, st.ck \o <<256>> \o st.sk) EXCEPT !.errs = {}]
      f == Fields(in[1])
  IN IF m.v = "bad" /\ IsAttr(f[1], "e") THEN
       RejectAs(IF \A j \in 2..Len(f) : ExtOk(f[j]) /\ ~Reserved(f[j]) THEN {"outcome"} ELSE {"outcome", "mech"})
     ELSE IF m.v = "bad" THEN Reject
     ELSE IF m.sig # st.sig THEN RejectAs(IF Len(m.sig) = Len(st.sig) /\ ~m.may THEN {"mutual"} ELSE {"mutual", "mech"})
     ELSE [With(<<offer>>, [E0 EXCEPT !.res = "finN"]) EXCEPT !.mayerr = m.may]

ScramClient(C, st, in, ev) ==
  CASE st.k = "init" -> ScramClientFirst(C, in, ev)
    [] st.k = "sfirst" -> ScramClientFinal(C, st, in)
    [] OTHER -> ScramClientDone(C, st, in)

------------------------------------------------------------------------------
(* Server.  States: init; final [known, gs2cb, bare, nonce, sfirst, stored, server, ctx]        *)
CbName(f) == From(f, 3)
CbNameOk(n) == n # <<>> /\ \A k \in DOMAIN n : n[k] \in 48..57 \cup 65..90 \cup 97..122 \cup {45, 46}

ClientFirst(m) ==
  LET f == Fields(m)
      ext == SubSeq(f, 5, Len(f))
      user == UnescapeName(Val(f[3]))
      z == UnescapeName(From(f[2], 3))
      hasz == f[2] # <<>>
      ok == /\ Len(f) >= 4
            /\ f[1] \in {B("n"), B("y")} \/ (IsAttr(f[1], "p") /\ CbNameOk(CbName(f[1])))
            /\ hasz => IsAttr(f[2], "a") /\ IsUtf8(f[2]) /\ z.ok /\ z.s # <<>> /\ ~Has(z.s, 0)
            /\ IsAttr(f[3], "n") /\ IsUtf8(f[3]) /\ user.ok /\ user.s # <<>> /\ ~Has(user.s, 0)
            /\ IsAttr(f[4], "r") /\ Val(f[4]) # <<>> /\ Printable(Val(f[4]))
            /\ \A j \in DOMAIN ext : ExtOk(ext[j])
  IN IF ~ok THEN [v |-> "bad"]
     ELSE [v |-> "ok", flag |-> f[1], authzid |-> IF hasz THEN Some(z.s) ELSE None, user |-> user.s,
           nonce |-> Val(f[4]), gs2 |-> f[1] \o B(",") \o f[2] \o B(","),
           bare |-> Join(SubSeq(f, 3, Len(f)), 44), may |-> \E j \in DOMAIN ext : Reserved(ext[j])]

ScramServerFirst(C, in, ev) ==
  IF in = None THEN NeedInput ELSE
  LET alg == Alg(C.mech)
      m == ClientFirst(in[1])
      binds == m.flag[1] = 112
      ctx == {<<"AuthId", m.user>>} \cup (IF m.authzid = None THEN {} ELSE {<<"AuthzId", m.authzid[1]>>})
      forbidden == \/ m.flag = B("y") /\ (IsPlus(C.mech) \/ PlusOf(C.mech) \in Range(C.regs))
                   \/ m.flag = B("n") /\ IsPlus(C.mech)
      cb == CbData(C, CbName(m.flag), ctx, TRUE)
      wrong(v) == IF Len(v.stored) = HLen(alg) /\ Len(v.server) = HLen(alg) THEN None ELSE Some(MechErr)
      r == Maybe(C, "ScramStoredPassword", ctx, wrong)
      reqs == (IF binds THEN cb.reqs ELSE <<>>) \o <<r>>
      errs == (IF binds THEN cb.errs ELSE {}) \cup r.errs
      known == r.val # None
      \* what the server sends: nonce, and for unknown users the salt, are its choice
      of == Fields(ev.out)
      head == B("r=") \o m.nonce
      snonce == IF StartsWith(of[1], head) THEN From(of[1], Len(head) + 1) ELSE <<>>
      goodnonce == Len(snonce) >= NonceLen /\ Printable(snonce)
      fakesalt == IF Len(of) = 3 /\ IsAttr(of[2], "s") /\ IsB64(Val(of[2])) THEN UnB64(Val(of[2])) ELSE <<>>
      salt == IF known THEN r.val[1].salt ELSE fakesalt
      iter == IF known THEN r.val[1].iter
              ELSE IF Len(of) = 3 /\ IsAttr(of[3], "i") /\ IsDigits(Val(of[3])) THEN Val(of[3]) ELSE B("4096")
      out == head \o snonce \o B(",s=") \o ToB64(salt) \o B(",i=") \o iter
      nonceok == StartsWith(of[1], head)
  IN IF m.v = "bad" THEN Reject
     ELSE IF forbidden THEN Reject
     ELSE IF errs # {} THEN [E0 EXCEPT !.errs = errs, !.reqs = reqs, !.mayerr = m.may]
     ELSE [E0 EXCEPT !.reqs = reqs, !.out = out, !.mayerr = m.may,
             !.devs = (IF nonceok /\ ~goodnonce THEN {"nonce"} ELSE {})
                      \cup (IF ~known /\ Len(fakesalt) < 8 THEN {"salt"} ELSE {}),
             !.fresh = <<snonce>> \o (IF known THEN <<>> ELSE <<fakesalt>>),
             !.st = [k |-> "final", known |-> known, gs2cb |-> m.gs2 \o (IF binds THEN cb.val[1] ELSE <<>>),
                     bare |-> m.bare, nonce |-> m.nonce \o snonce, sfirst |-> out,
                     stored |-> IF known THEN r.val[1].stored ELSE <<>>,
                     server |-> IF known THEN r.val[1].server ELSE <<>>, ctx |-> ctx]]

ClientFinal(m) ==
  LET f == Fields(m)
      n == Len(f)
      ext == SubSeq(f, 3, n - 1)
      ok == /\ n >= 3 /\ IsAttr(f[1], "c") /\ IsAttr(f[2], "r") /\ IsAttr(f[n], "p")
            /\ \A j \in DOMAIN ext : ExtOk(ext[j])
  IN IF ~ok THEN [v |-> "bad"]
     ELSE [v |-> "ok", c |-> Val(f[1]), nonce |-> Val(f[2]), p |-> Val(f[n]),
           wo |-> Join(SubSeq(f, 1, n - 1), 44), may |-> \E j \in DOMAIN ext : Reserved(ext[j])]

ScramServerFinal(C, st, slot, in) ==
  IF in = None THEN NeedInput ELSE
  LET alg == Alg(C.mech)
      m == ClientFinal(in[1])
      msg == st.bare \o B(",") \o st.sfirst \o B(",") \o m.wo
      proof == UnB64(m.p)
      proves == /\ IsB64(m.p) /\ Len(proof) = HLen(alg)
                /\ Hash(alg, Xor(proof, Hmac(alg, st.stored, msg))) = st.stored
      good == st.known /\ m.nonce = st.nonce /\ IsB64(m.c) /\ UnB64(m.c) = st.gs2cb /\ proves
  IN IF m.v = "bad" THEN Reject
     ELSE IF ~good THEN [E0 EXCEPT !.reject = TRUE]
     ELSE [Validated(C, slot, st.ctx, [E0 EXCEPT !.out = B("v=") \o ToB64(Hmac(alg, st.server, msg)), !.res = "finY"])
            EXCEPT !.mayerr = m.may]

ScramServer(C, st, slot, in, ev) ==
  IF st.k = "init" THEN ScramServerFirst(C, in, ev) ELSE ScramServerFinal(C, st, slot, in)
=============================================================================
