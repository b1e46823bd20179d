-------------------------------- MODULE Prim --------------------------------
(* Primitives given by java/Prim.java: byte strings of literals and the      *)
(* cryptographic functions of FIPS 180-4, RFC 2104 and RFC 2898.  The        *)
(* definitions here are placeholders; the ASSUMEs fail unless the Java class  *)
(* is in place and computes the published test vectors.                       *)
EXTENDS Naturals, Sequences
B(s) == <<>>                  \* the UTF-8 bytes of a string literal
Str(b) == ""                  \* the inverse, for messages to humans
Hash(alg, m) == <<>>          \* alg: "1", "256", "512"
Hmac(alg, k, m) == <<>>
Hi(alg, pw, salt, iter) == <<>>
Xor(a, b) == <<>>

ASSUME B("aZ=") = <<97, 90, 61>>
\* FIPS 180: SHA-1("abc")
ASSUME Hash("1", B("abc")) = <<169,153,62,54,71,6,129,106,186,62,37,113,120,80,194,108,156,208,216,157>>
\* RFC 4231 test case 2
ASSUME Hmac("256", B("Jefe"), B("what do ya want for nothing?")) =
  <<91,220,193,70,191,96,117,78,106,4,36,38,8,149,117,199,90,0,63,8,157,39,57,131,157,236,88,185,100,236,56,67>>
\* RFC 6070 test case 2
ASSUME Hi("1", B("password"), B("salt"), 2) =
  <<234,108,1,77,199,45,111,140,205,30,217,42,206,29,65,240,216,222,137,87>>
=============================================================================
