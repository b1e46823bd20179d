------------------------------- MODULE GssApi -------------------------------
(* The GSS-API library (RFC 2743) as the harness stands in for it.  A context is established by   *)
(* alternating tokens, the first one from the initiator, conf.legs of them in all:                  *)
(*   'T' j key [flags(2) len(src) src target, if j = 1] check(2)                                 *)
(* and protects messages as                                                                       *)
(*   'W' encrypted direction key number body check(2)                                            *)
(* conf: [flags, legs, key, src, fail] says what the environment provides: the facilities there   *)
(* are, the length of the exchange, a shared secret, the principal and which call fails.           *)
EXTENDS Bytes

MUTUAL == 2
CONFID == 16
INTEG == 32
Flag(f, b) == (f \div b) % 2 = 1
AllFlags == {1, 2, 4, 8, 16, 32, 64, 128, 256, 32768}
FlagsIn(f) == {b \in AllFlags : Flag(f, b)}
FlagSum(F) == FoldFunction(+, 0, [b \in F |-> b])

CheckSum(b) == LET s == FoldLeft(LAMBDA a, k : (a + k * b[k]) % 65521, 0, [k \in DOMAIN b |-> k])
               IN <<s \div 256, s % 256>>
Sealed(b) == b \o CheckSum(b)
Opened(b) == IF Len(b) < 2 THEN None
             ELSE LET c == SubSeq(b, 1, Len(b) - 2) IN IF Sealed(c) = b THEN Some(c) ELSE None

\* init: am I the initiator; n: calls made
Ctx0(init, flags, src, target) ==
  [init |-> init, n |-> 0, done |-> FALSE, flags |-> flags, src |-> src, target |-> target, sent |-> 0, rcvd |-> 0]

GssToken(g, ctx, j) ==
  IF j > g.legs THEN <<>>
  ELSE Sealed(<<84, j, g.key>> \o
              (IF j = 1 THEN <<ctx.flags \div 256, ctx.flags % 256, Len(ctx.src)>> \o ctx.src \o ctx.target ELSE <<>>))

\* What token j says, if it is one: the context after it
TakeToken(g, ctx, j, tok) ==
  LET c == Opened(tok)
      t == c[1]
      n == t[6]
  IN IF c = None \/ Len(t) < 3 \/ SubSeq(t, 1, 3) # <<84, j, g.key>> THEN None
     ELSE IF j > 1 THEN (IF Len(t) = 3 THEN Some(ctx) ELSE None)
     ELSE IF Len(t) < 6 \/ Len(t) < 6 + n THEN None
     ELSE Some([ctx EXCEPT !.flags = FlagSum(FlagsIn(t[4] * 256 + t[5]) \cap FlagsIn(g.flags)),
                           !.src = SubSeq(t, 7, 6 + n), !.target = From(t, 7 + n)])

\* One call of gss_init_sec_context or gss_accept_sec_context: [ok, ctx, out]
Establish(g, ctx, tok) ==
  LET n == ctx.n + 1
      in == IF ctx.init THEN 2 * (n - 1) ELSE (2 * n) - 1
      fails == g.fail = (IF ctx.init THEN <<"init1", "init2", "init3">> ELSE <<"accept1", "accept2", "accept3">>)[n]
      after == IF in = 0 THEN Some(ctx) ELSE TakeToken(g, ctx, in, tok)
  IN IF fails \/ after = None THEN [ok |-> FALSE, ctx |-> ctx, out |-> <<>>]
     ELSE [ok |-> TRUE, ctx |-> [after[1] EXCEPT !.n = n, !.done = in + 2 > g.legs], out |-> GssToken(g, after[1], in + 1)]

Masked(g, b) == LET k == Xor(<<g.key>>, <<90>>)[1] IN Xor(b, [j \in DOMAIN b |-> k])
\* [ctx, out]
WrapMsg(g, ctx, conf, b) ==
  LET c == conf /\ Flag(ctx.flags, CONFID)
  IN [ctx |-> [ctx EXCEPT !.sent = (@ + 1) % 256],
      out |-> Sealed(<<87, IF c THEN 1 ELSE 0, IF ctx.init THEN 0 ELSE 1, g.key, ctx.sent>> \o (IF c THEN Masked(g, b) ELSE b))]
\* [ok, ctx, out]
UnwrapMsg(g, ctx, b) ==
  LET c == Opened(b)
      t == c[1]
  IN IF c = None \/ Len(t) < 5 \/ t[1] # 87 \/ t[2] > 1 \/ SubSeq(t, 3, 5) # <<IF ctx.init THEN 1 ELSE 0, g.key, ctx.rcvd>>
     THEN [ok |-> FALSE, ctx |-> ctx, out |-> <<>>]
     ELSE [ok |-> TRUE, ctx |-> [ctx EXCEPT !.rcvd = (@ + 1) % 256],
           out |-> IF t[2] = 1 THEN Masked(g, From(t, 6)) ELSE From(t, 6)]

DefaultGss == [flags |-> 62, legs |-> 2, key |-> 7, src |-> B("user@EXAMPLE.ORG"), fail |-> ""]
=============================================================================
