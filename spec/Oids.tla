-------------------------------- MODULE Oids --------------------------------
(***************************************************************************)
(* OBJECT IDENTIFIER and RELATIVE-OID contents (X.690 8.19, 8.20).  An arc *)
(* is a sequence of 7-bit groups, most significant first, without leading  *)
(* zero groups (0 is <<0>>), so arcs of any size are exact.                *)
(***************************************************************************)
EXTENDS Bytes

OidWellFormed(c) == c # <<>> /\ c[Len(c)] < 128

RECURSIVE StripZ(_)
StripZ(g) == IF Len(g) > 1 /\ g[1] = 0 THEN StripZ(Tail(g)) ELSE g

RECURSIVE SubIds(_)        \* the subidentifiers of a well-formed content
SubIds(c) ==
  IF c = <<>> THEN <<>>
  ELSE LET e == CHOOSE i \in 1..Len(c) : c[i] < 128 /\ \A j \in 1..(i - 1) : c[j] >= 128
       IN <<StripZ([i \in 1..e |-> c[i] % 128])>> \o SubIds(Drop(c, e))

SmallArc(n) == IF n < 128 THEN <<n>> ELSE StripZ(<<n \div 16384, (n \div 128) % 128, n % 128>>)
ArcInt(g) == FoldLeft(LAMBDA a, x : a * 128 + x, 0, g)      \* arcs below 2^24

\* the first subidentifier stands for two arcs; only one octet (< 128) is in the supported range
Arcs(rel, c) ==
  LET s == SubIds(c) IN
  IF rel THEN s
  ELSE LET n == c[1] IN << SmallArc(n \div 40), SmallArc(n % 40) >> \o Tail(s)
\* K13: the library shows the identifier 0.0 as the single arc 0

\* supported by the library: both first arcs fit one octet 40 * a + b with a <= 2 and b < 40 (other identifiers: K4)
FirstSupported(c) == c[1] < 120

EncArc(g) == [i \in 1..Len(g) |-> IF i < Len(g) THEN 128 + g[i] ELSE g[i]]
EncArcs(rel, a) ==
  IF rel THEN Concat([i \in 1..Len(a) |-> EncArc(a[i])])
  ELSE <<40 * ArcInt(a[1]) + ArcInt(a[2])>> \o Concat([i \in 1..(Len(a) - 2) |-> EncArc(a[i + 2])])

\* decimal digits of an arc of any size
RECURSIVE DecAddCarry(_, _, _)
\* digits d (least significant first) times 128 plus carry
DecAddCarry(d, k, carry) ==
  IF k > Len(d)
  THEN IF carry = 0 THEN <<>> ELSE <<carry % 10>> \o DecAddCarry(d, k, carry \div 10)
  ELSE LET x == d[k] * 128 + carry IN <<x % 10>> \o DecAddCarry(d, k + 1, x \div 10)
Decimal(g) ==
  LET d == FoldLeft(LAMBDA acc, x : DecAddCarry(acc, 1, x), <<>>, g)
  IN IF d = <<>> THEN <<48>> ELSE [i \in 1..Len(d) |-> 48 + d[Len(d) + 1 - i]]
RECURSIVE Dotted(_)
Dotted(a) == IF a = <<>> THEN <<>> ELSE IF Len(a) = 1 THEN Decimal(a[1]) ELSE Decimal(a[1]) \o <<46>> \o Dotted(Tail(a))

\* an arc as 8 octets, <<>> if it needs more than 64 bits
ArcU64(g) ==
  LET bits == Concat([i \in 1..Len(g) |-> [k \in 1..7 |-> BitOf(g[i], 7 - k)]])
      b == IF Len(bits) >= 64 THEN bits ELSE Reps(0, 64 - Len(bits)) \o bits
      over == Len(b) - 64
  IN IF \E i \in 1..over : b[i] = 1 THEN <<>> ELSE OctetsOfBits(Drop(b, over))
=============================================================================
