------------------------------ MODULE JsonText ------------------------------
(* JSON (RFC 8259) as far as the OAUTHBEARER error message needs it: objects   *)
(* are parsed, other values only recognised.  Positions are 1-based; a parse   *)
(* yields [ok, k, t, v]: success, position behind the value, its type ("str",  *)
(* "obj", "null", "other") and value (UTF-8 bytes / sequence of <<key, val>>). *)
EXTENDS Bytes

JBad == [ok |-> FALSE, k |-> 0, t |-> "", v |-> <<>>]
At(s, k) == IF k \in DOMAIN s THEN s[k] ELSE 256
RECURSIVE SkipWs(_, _)
SkipWs(s, k) == IF At(s, k) \in {32, 9, 10, 13} THEN SkipWs(s, k + 1) ELSE k

Hex(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> 99
Hex4(s, k) == IF \A j \in 0..3 : Hex(At(s, k + j)) < 16
              THEN Hex(s[k]) * 4096 + Hex(s[k + 1]) * 256 + Hex(s[k + 2]) * 16 + Hex(s[k + 3]) ELSE 0 - 1
Simple == (34 :> 34) @@ (92 :> 92) @@ (47 :> 47) @@ (98 :> 8) @@ (102 :> 12) @@ (110 :> 10) @@ (114 :> 13) @@ (116 :> 9)

\* the first position from k on that is no plain character of a string
JPlain(s, k) == LET stop == {j \in k..Len(s) : s[j] < 32 \/ s[j] \in {34, 92}} IN IF stop = {} THEN Len(s) + 1 ELSE Min(stop)
RECURSIVE JStr(_, _, _, _)
\* k: behind the opening quote; x: half a surrogate pair is let pass, as 256
JStr(x, s, k, acc) ==
  LET c == At(s, k) IN
  CASE c = 34 -> [ok |-> TRUE, k |-> k + 1, t |-> "str", v |-> acc]
    [] c < 32 \/ c = 256 -> JBad
    [] c = 92 ->
        LET e == At(s, k + 1) IN
        IF e \in DOMAIN Simple THEN JStr(x, s, k + 2, Append(acc, Simple[e]))
        ELSE IF e # 117 THEN JBad
        ELSE LET h == Hex4(s, k + 2) IN
          CASE h < 0 -> JBad
            [] h \in 55296..56319 ->
                LET l == IF At(s, k + 6) = 92 /\ At(s, k + 7) = 117 THEN Hex4(s, k + 8) ELSE 0 - 1
                IN IF l \in 56320..57343
                   THEN JStr(x, s, k + 12, acc \o OfChar(65536 + (h - 55296) * 1024 + (l - 56320)))
                   ELSE IF x THEN JStr(x, s, k + 6, Append(acc, 256)) ELSE JBad
            [] h \in 56320..57343 -> IF x THEN JStr(x, s, k + 6, Append(acc, 256)) ELSE JBad
            [] OTHER -> JStr(x, s, k + 6, acc \o OfChar(h))
    [] OTHER ->      \* up to what means something
        LET n == JPlain(s, k + 1) IN JStr(x, s, n, acc \o SubSeq(s, k, n - 1))

RECURSIVE Digits(_, _)
Digits(s, k) == IF At(s, k) \in 48..57 THEN Digits(s, k + 1) ELSE k
JNum(s, k0) ==
  LET k == IF At(s, k0) = 45 THEN k0 + 1 ELSE k0
      i == Digits(s, k)
      f == IF At(s, i) = 46 THEN Digits(s, i + 1) ELSE i
      x == IF At(s, f) \in {69, 101} THEN IF At(s, f + 1) \in {43, 45} THEN f + 2 ELSE f + 1 ELSE f
      e == IF x = f THEN f ELSE Digits(s, x)
  IN IF i = k \/ (At(s, k) = 48 /\ i # k + 1) \/ (At(s, i) = 46 /\ f = i + 1) \/ (x # f /\ e = x)
     THEN JBad ELSE [ok |-> TRUE, k |-> e, t |-> "other", v |-> <<>>]
JWord(s, k, w, t) == IF StartsWith(From(s, k), w) THEN [ok |-> TRUE, k |-> k + Len(w), t |-> t, v |-> <<>>] ELSE JBad

RECURSIVE JVal(_, _, _), JArr(_, _, _), JObj(_, _, _, _)
JVal(x, s, k0) ==
  LET k == SkipWs(s, k0) c == At(s, k) IN
  CASE c = 34 -> JStr(x, s, k + 1, <<>>)
    [] c = 123 -> LET n == SkipWs(s, k + 1) IN
         IF At(s, n) = 125 THEN [ok |-> TRUE, k |-> n + 1, t |-> "obj", v |-> <<>>] ELSE JObj(x, s, n, <<>>)
    [] c = 91 -> LET n == SkipWs(s, k + 1) IN
         IF At(s, n) = 93 THEN [ok |-> TRUE, k |-> n + 1, t |-> "arr", v |-> <<>>] ELSE JArr(x, s, n)
    [] c = 110 -> JWord(s, k, B("null"), "null")
    [] c = 116 -> JWord(s, k, B("true"), "other")
    [] c = 102 -> JWord(s, k, B("false"), "other")
    [] OTHER -> JNum(s, k)
JArr(x, s, k) ==
  LET v == JVal(x, s, k) n == IF v.ok THEN SkipWs(s, v.k) ELSE 0 IN
  CASE ~v.ok -> JBad
    [] At(s, n) = 93 -> [ok |-> TRUE, k |-> n + 1, t |-> "arr", v |-> <<>>]
    [] At(s, n) = 44 -> JArr(x, s, n + 1)
    [] OTHER -> JBad
JObj(x, s, k0, acc) ==
  LET k == SkipWs(s, k0)
      key == IF At(s, k) = 34 THEN JStr(x, s, k + 1, <<>>) ELSE JBad
      c == IF key.ok THEN SkipWs(s, key.k) ELSE 0
      val == IF key.ok /\ At(s, c) = 58 THEN JVal(x, s, c + 1) ELSE JBad
      n == IF val.ok THEN SkipWs(s, val.k) ELSE 0
      all == Append(acc, [key |-> key.v, t |-> val.t, v |-> val.v])
  IN CASE ~val.ok -> JBad
       [] At(s, n) = 125 -> [ok |-> TRUE, k |-> n + 1, t |-> "obj", v |-> all]
       [] At(s, n) = 44 -> JObj(x, s, n + 1, all)
       [] OTHER -> JBad
JDoc(x, s) ==
  LET v == IF x \/ IsUtf8(s) THEN JVal(x, s, 1) ELSE JBad
  IN IF v.ok /\ SkipWs(s, v.k) = Len(s) + 1 THEN v ELSE JBad

(* The OAUTHBEARER error message (RFC 7628 section 3.2.2): [v, status, scope, conf]; v is     *)
(* "ok", "bad" or, for repeated members, "dc".  Absent and null members are the same.      *)
OAuthError(s) ==
  LET strict == JDoc(FALSE, s)
      lax == JDoc(TRUE, s)
      d == IF strict.ok THEN strict ELSE lax
      clean(v) == ~Has(v, 256) /\ IsUtf8(v)
      m(k) == SelectSeq(d.v, LAMBDA e : e.key = k)
      fields == {B("status"), B("scope"), B("openid-configuration")}
      optstr(k) == IF m(k) = <<>> \/ m(k)[1].t = "null" THEN None ELSE Some(m(k)[1].v)
      bad == [v |-> "bad", status |-> <<>>, scope |-> None, conf |-> None]
      \* how deeply values may be nested is up to the implementation
      deep == Len(SelectSeq(s, LAMBDA x : x \in {91, 123})) > 60
  IN IF deep THEN [bad EXCEPT !.v = "dc"]
     ELSE IF ~d.ok THEN bad
     ELSE IF d.t = "arr" THEN [bad EXCEPT !.v = "dc"]
     ELSE IF d.t # "obj" THEN bad
     ELSE IF \E k \in fields : Len(m(k)) > 1 THEN [bad EXCEPT !.v = "dc"]
     ELSE IF m(B("status")) = <<>> \/ m(B("status"))[1].t # "str"
             \/ \E k \in fields : m(k) # <<>> /\ m(k)[1].t \notin {"str", "null"} THEN bad
     \* what is no text in values nobody asked for may go unnoticed
     ELSE IF \E j \in DOMAIN d.v : ~clean(d.v[j].key) \/ (d.v[j].key \in fields /\ ~clean(d.v[j].v)) THEN bad
     ELSE IF ~strict.ok THEN [bad EXCEPT !.v = "dc"]
     ELSE [v |-> "ok", status |-> m(B("status"))[1].v, scope |-> optstr(B("scope")),
           conf |-> optstr(B("openid-configuration"))]
=============================================================================
