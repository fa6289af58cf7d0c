------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Octet strings as sequences of integers 0..255, and the small amount of  *)
(* arithmetic on them the specification needs.  TLC integers have 32 bits, *)
(* so every number that can be larger is kept as an octet (or bit)         *)
(* sequence.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

BIG == 1073741824            \* stands for every length >= 2^24: longer than any input used

Drop(s, k) == SubSeq(s, k + 1, Len(s))
Take(s, k) == SubSeq(s, 1, k)
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
Reps(x, k) == [i \in 1..k |-> x]
AllIn(s, S) == \A i \in DOMAIN s : s[i] \in S

Pow2(k) == 2^k
BitOf(b, k) == (b \div (2^k)) % 2      \* k = 0 is the least significant bit

RECURSIVE StripZeros(_)
StripZeros(s) == IF s # <<>> /\ s[1] = 0 THEN StripZeros(Tail(s)) ELSE s

\* big-endian value of at most three octets
ShortVal(s) == FoldLeft(LAMBDA acc, b : acc * 256 + b, 0, s)
\* value of an octet string as a length: exact below 2^24, BIG above
LenVal(s) == LET t == StripZeros(s) IN IF Len(t) <= 3 THEN ShortVal(t) ELSE BIG

\* big-endian octets of a non-negative integer, without leading zeros (0 is <<>>)
RECURSIVE OctetsOf(_)
OctetsOf(n) == IF n = 0 THEN <<>> ELSE Append(OctetsOf(n \div 256), n % 256)

\* lexicographic order
RECURSIVE LexLess(_, _)
LexLess(a, b) ==
  IF b = <<>> THEN FALSE
  ELSE IF a = <<>> THEN TRUE
  ELSE IF a[1] # b[1] THEN a[1] < b[1]
  ELSE LexLess(Tail(a), Tail(b))

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

\* sequence of distinct or equal octet strings, sorted
RECURSIVE InsertLex(_, _)
InsertLex(x, ss) ==
  IF ss = <<>> THEN <<x>>
  ELSE IF LexLess(x, ss[1]) THEN <<x>> \o ss
  ELSE <<ss[1]>> \o InsertLex(x, Tail(ss))
SortLex(ss) == FoldLeft(LAMBDA acc, x : InsertLex(x, acc), <<>>, ss)
Dedup(ss) == FoldLeft(LAMBDA acc, x : IF \E i \in DOMAIN acc : acc[i] = x THEN acc ELSE Append(acc, x), <<>>, ss)

\* bits, most significant first
BitsOf(b) == [k \in 1..8 |-> BitOf(b, 8 - k)]
BitString(s) == [k \in 1..(8 * Len(s)) |-> BitOf(s[((k - 1) \div 8) + 1], 7 - ((k - 1) % 8))]
\* octets of a bit sequence, padded with zeros at the end
OctetsOfBits(bs) ==
  [i \in 1..((Len(bs) + 7) \div 8) |->
     FoldLeft(LAMBDA acc, k : acc * 2 + (IF 8 * (i - 1) + k <= Len(bs) THEN bs[8 * (i - 1) + k] ELSE 0),
              0, <<1, 2, 3, 4, 5, 6, 7, 8>>)]
=============================================================================
