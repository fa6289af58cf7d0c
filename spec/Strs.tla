-------------------------------- MODULE Strs --------------------------------
(***************************************************************************)
(* Character repertoires of the string types (X.680 41, X.690 8.23).       *)
(***************************************************************************)
EXTENDS Bytes

Digits == 48..57
Letters == (65..90) \cup (97..122)
Repertoire(cs) ==
  CASE cs = "numeric"   -> Digits \cup {32}
    [] cs = "printable" -> Digits \cup Letters \cup {32, 39, 40, 41, 43, 44, 45, 46, 47, 58, 61, 63}
    [] cs = "visible"   -> 32..126
    [] cs = "teletex"   -> 32..127
    [] cs = "ascii"     -> 0..127

\* UTF-8 (Unicode table 3-7)
RECURSIVE Utf8From(_, _)
Cont(s, p) == p <= Len(s) /\ s[p] \in 128..191
Utf8From(s, p) ==
  IF p > Len(s) THEN TRUE
  ELSE LET b == s[p] IN
       CASE b < 128 -> Utf8From(s, p + 1)
         [] b \in 194..223 -> Cont(s, p + 1) /\ Utf8From(s, p + 2)
         [] b \in 224..239 -> /\ Cont(s, p + 1) /\ Cont(s, p + 2)
                              /\ (b = 224 => s[p + 1] >= 160) /\ (b = 237 => s[p + 1] < 160)
                              /\ Utf8From(s, p + 3)
         [] b \in 240..244 -> /\ Cont(s, p + 1) /\ Cont(s, p + 2) /\ Cont(s, p + 3)
                              /\ (b = 240 => s[p + 1] >= 144) /\ (b = 244 => s[p + 1] < 144)
                              /\ Utf8From(s, p + 4)
         [] OTHER -> FALSE
Utf8Valid(s) == Utf8From(s, 1)

\* two-octet characters, surrogate pairs allowed: code points, or <<-1>> if invalid
RECURSIVE Utf16From(_, _)
Utf16From(s, p) ==
  IF p > Len(s) THEN <<>>
  ELSE LET u == s[p] * 256 + s[p + 1] IN
       IF u \in 55296..56319
       THEN IF p + 3 <= Len(s) /\ s[p + 2] * 256 + s[p + 3] \in 56320..57343
            THEN LET l == s[p + 2] * 256 + s[p + 3]
                     r == Utf16From(s, p + 4)
                 IN IF r # <<>> /\ r[1] = -1 THEN r ELSE <<65536 + (u - 55296) * 1024 + (l - 56320)>> \o r
            ELSE <<-1>>
       ELSE IF u \in 56320..57343 THEN <<-1>>
       ELSE LET r == Utf16From(s, p + 2) IN IF r # <<>> /\ r[1] = -1 THEN r ELSE <<u>> \o r
BmpChars(s) == IF Len(s) % 2 # 0 THEN <<-1>> ELSE Utf16From(s, 1)

IsScalar(x) == x \in 0..55295 \/ x \in 57344..1114111
UniversalChars(s) ==
  IF Len(s) % 4 # 0 THEN <<-1>>
  ELSE LET v == [i \in 1..(Len(s) \div 4) |->
                   IF s[4 * i - 3] # 0 THEN -1
                   ELSE LET x == s[4 * i - 2] * 65536 + s[4 * i - 1] * 256 + s[4 * i] IN IF IsScalar(x) THEN x ELSE -1]
       IN IF \E i \in DOMAIN v : v[i] = -1 THEN <<-1>> ELSE v

Utf16Bytes(v) ==
  Concat([i \in 1..Len(v) |->
    IF v[i] < 65536 THEN <<v[i] \div 256, v[i] % 256>>
    ELSE LET x == v[i] - 65536
             a == 55296 + (x \div 1024)
             b == 56320 + (x % 1024)
         IN <<a \div 256, a % 256, b \div 256, b % 256>>])
Utf32Bytes(v) == Concat([i \in 1..Len(v) |-> <<0, v[i] \div 65536, (v[i] \div 256) % 256, v[i] % 256>>])

Utf8Bytes(v) ==
  Concat([i \in 1..Len(v) |->
    LET x == v[i] IN
    IF x < 128 THEN <<x>>
    ELSE IF x < 2048 THEN <<192 + (x \div 64), 128 + (x % 64)>>
    ELSE IF x < 65536 THEN <<224 + (x \div 4096), 128 + ((x \div 64) % 64), 128 + (x % 64)>>
    ELSE <<240 + (x \div 262144), 128 + ((x \div 4096) % 64), 128 + ((x \div 64) % 64), 128 + (x % 64)>>])

\* the characters of a content, as the value of the type; <<-1>> when not valid
StrValid(cs, s) == IF cs = "utf8" THEN Utf8Valid(s) ELSE AllIn(s, Repertoire(cs))
=============================================================================
