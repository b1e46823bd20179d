------------------------------- MODULE Bytes --------------------------------
(* Byte strings: sequences of 0..255.  Text is UTF-8.                         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Prim

Has(s, c) == \E k \in DOMAIN s : s[k] = c
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
From(s, k) == SubSeq(s, k, Len(s))
Count(s, c) == Cardinality({k \in DOMAIN s : s[k] = c})
IndexOf(s, c) == LET P == {k \in DOMAIN s : s[k] = c} IN IF P = {} THEN 0 ELSE Min(P)
Split(s, c) ==
  LET P == SetToSortSeq({k \in DOMAIN s : s[k] = c}, LAMBDA a, b : a < b)
      n == Len(P)
  IN [j \in 1..(n + 1) |-> SubSeq(s, IF j = 1 THEN 1 ELSE P[j-1] + 1, IF j = n + 1 THEN Len(s) ELSE P[j] - 1)]
Cat(ss) == FlattenSeq(ss)
Join(ss, c) == Cat([j \in DOMAIN ss |-> IF j = 1 THEN ss[j] ELSE <<c>> \o ss[j]])

(* Options are sequences of length at most one *)
None == <<>>
Some(x) == <<x>>
IsSome(o) == Len(o) = 1

------------------------------------------------------------------------------
(* UTF-8 (RFC 3629) *)
RECURSIVE Utf8From(_, _)
Utf8From(s, k) ==
  IF k > Len(s) THEN TRUE ELSE
  LET b == s[k]
      at(j) == IF k + j <= Len(s) THEN s[k + j] ELSE 0
      cont(j) == at(j) \in 128..191
  IN CASE b < 128 -> Utf8From(s, k + 1)
       [] b \in 194..223 -> cont(1) /\ Utf8From(s, k + 2)
       [] b \in 224..239 -> /\ at(1) \in (IF b = 224 THEN 160 ELSE 128)..(IF b = 237 THEN 159 ELSE 191)
                            /\ cont(2) /\ Utf8From(s, k + 3)
       [] b \in 240..244 -> /\ at(1) \in (IF b = 240 THEN 144 ELSE 128)..(IF b = 244 THEN 143 ELSE 191)
                            /\ cont(2) /\ cont(3) /\ Utf8From(s, k + 4)
       [] OTHER -> FALSE
Ascii(s) == \A k \in DOMAIN s : s[k] < 128
IsUtf8(s) == Ascii(s) \/ Utf8From(s, 1)

(* Code points of valid UTF-8 *)
RECURSIVE CharsFrom(_, _)
CharsFrom(s, k) ==
  IF k > Len(s) THEN <<>> ELSE
  LET b == s[k] c(j) == s[k + j] - 128
  IN CASE b < 128 -> <<b>> \o CharsFrom(s, k + 1)
       [] b \in 194..223 -> <<(b - 192) * 64 + c(1)>> \o CharsFrom(s, k + 2)
       [] b \in 224..239 -> <<(b - 224) * 4096 + c(1) * 64 + c(2)>> \o CharsFrom(s, k + 3)
       [] OTHER -> <<(b - 240) * 262144 + c(1) * 4096 + c(2) * 64 + c(3)>> \o CharsFrom(s, k + 4)
Chars(s) == IF Ascii(s) THEN s ELSE CharsFrom(s, 1)
OfChar(c) ==
  CASE c < 128 -> <<c>>
    [] c < 2048 -> <<192 + c \div 64, 128 + (c % 64)>>
    [] c < 65536 -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] OTHER -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
OfChars(cs) == IF \A k \in DOMAIN cs : cs[k] < 128 THEN cs ELSE Cat([k \in DOMAIN cs |-> OfChar(cs[k])])

------------------------------------------------------------------------------
(* Canonical base64 (RFC 4648 section 4, padding required, zero pad bits) *)
B64Chars == B("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
B64Val == [c \in 0..255 |-> IF Has(B64Chars, c) THEN IndexOf(B64Chars, c) - 1 ELSE 64]
B64Pad(s) == IF Len(s) >= 1 /\ s[Len(s)] = 61 THEN IF Len(s) >= 2 /\ s[Len(s) - 1] = 61 THEN 2 ELSE 1 ELSE 0
IsB64(s) ==
  LET n == Len(s) p == B64Pad(s)
  IN /\ n % 4 = 0
     /\ \A k \in 1..(n - p) : B64Val[s[k]] < 64
     /\ p = 1 => B64Val[s[n - 1]] % 4 = 0
     /\ p = 2 => B64Val[s[n - 2]] % 16 = 0
UnB64(s) ==
  LET v(k) == IF s[k] = 61 THEN 0 ELSE B64Val[s[k]]
      byte(j) == LET q == 4 * ((j - 1) \div 3) IN
        CASE (j - 1) % 3 = 0 -> v(q + 1) * 4 + v(q + 2) \div 16
          [] (j - 1) % 3 = 1 -> (v(q + 2) % 16) * 16 + v(q + 3) \div 4
          [] OTHER -> (v(q + 3) % 4) * 64 + v(q + 4)
  IN [j \in 1..(3 * (Len(s) \div 4) - B64Pad(s)) |-> byte(j)]
ToB64(m) ==
  LET n == Len(m)
      v(k) == IF k <= n THEN m[k] ELSE 0
      char(j) == LET q == 3 * ((j - 1) \div 4)
                     x == (CASE (j - 1) % 4 = 0 -> v(q + 1) \div 4
                             [] (j - 1) % 4 = 1 -> (v(q + 1) % 4) * 16 + v(q + 2) \div 16
                             [] (j - 1) % 4 = 2 -> (v(q + 2) % 16) * 4 + v(q + 3) \div 64
                             [] OTHER -> v(q + 3) % 64)
                 IN IF ((j - 1) % 4 = 2 /\ q + 2 > n) \/ ((j - 1) % 4 = 3 /\ q + 3 > n) THEN 61 ELSE B64Chars[x + 1]
  IN [j \in 1..(4 * ((n + 2) \div 3)) |-> char(j)]

ASSUME /\ ToB64(B("fo")) = B("Zm8=") /\ UnB64(B("Zm8=")) = B("fo")
       /\ ToB64(B("foobar")) = B("Zm9vYmFy") /\ UnB64(B("Zm9vYg==")) = B("foob")
       /\ IsB64(B("Zg==")) /\ ~IsB64(B("Zh==")) /\ ~IsB64(B("Zg=")) /\ ~IsB64(B("Z===")) /\ IsB64(<<>>)

------------------------------------------------------------------------------
(* Decimal numbers as digit strings of any length *)
IsDigits(s) == s # <<>> /\ \A k \in DOMAIN s : s[k] \in 48..57
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ s[1] = 48 THEN NoZeros(Tail(s)) ELSE s
RECURSIVE SeqLess(_, _)
SeqLess(a, b) == IF a = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE SeqLess(Tail(a), Tail(b))
IsU32(d) == LET n == NoZeros(d) m == B("4294967295") IN Len(n) < 10 \/ (Len(n) = 10 /\ ~SeqLess(m, n))
RECURSIVE NatOf(_)
NatOf(d) == IF d = <<>> THEN 0 ELSE 10 * NatOf(Front(d)) + d[Len(d)] - 48
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<48 + n>> ELSE DigitsOf(n \div 10) \o <<48 + (n % 10)>>

------------------------------------------------------------------------------
(* Text gives away a secret if any six octets of it in a row can be read there: as they are, as  *)
(* numbers, or encoded                                                                           *)
Occurs(x, s) == \E k \in 0..(Len(s) - Len(x)) : \A j \in DOMAIN x : s[k + j] = x[j]
HexOf(c, a) == LET d(n) == IF n < 10 THEN 48 + n ELSE a + n - 10 IN <<d(c \div 16), d(c % 16)>>
Readings(w) ==
  LET of(f(_)) == [j \in DOMAIN w |-> f(w[j])]
      low(c) == HexOf(c, 97)
      up(c) == HexOf(c, 65)
  IN {w, Join(of(DigitsOf), 44), Cat(of(low)), Cat(of(up)), Join(of(low), 44), Join(of(up), 44), ToB64(w)}
Leaks(text, secret) ==
  LET t == SelectSeq(text, LAMBDA c : c \notin {9, 10, 13, 32})
  IN \E k \in 1..(Len(secret) - 5) : \E f \in Readings(SubSeq(secret, k, k + 5)) : Occurs(f, t)

ASSUME /\ Leaks(B("error: \"hunter2\""), B("hunter2")) /\ ~Leaks(B("error: h"), B("hunter2")) /\ ~Leaks(B("hunt"), B("hunt"))
       /\ Leaks(B("[117, 110, 116, 101, 114, 50]"), B("hunter2")) /\ Leaks(B("bad 68756E746572"), B("hunter2"))
       /\ Leaks(B("aHVudGVyMg=="), B("hunter2")) /\ ~Leaks(<<>>, B("hunter2"))
=============================================================================
