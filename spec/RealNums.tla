-------------------------------- MODULE RealNums -------------------------------
(***************************************************************************)
(* REAL contents (X.690 8.5).  A finite binary value is                    *)
(*   [k |-> "bin", neg, bits, enc, e]   =  (-1)^neg * bits * 2^e           *)
(* bits being the binary digits of the mantissa (leading one first, <<>>   *)
(* for zero) and enc the base of the encoding (2, 8 or 16).  The library   *)
(* keeps the mantissa in a double, so more than 53 digits are rounded.     *)
(* A decimal value is [k |-> "dec", neg, ds, e] = (-1)^neg * ds * 10^e     *)
(***************************************************************************)
EXTENDS Ints, Oids

Special == {"zero", "inf", "ninf", "nan"}
RV(k) == [k |-> k]

RECURSIVE StripBits(_)
StripBits(b) == IF b # <<>> /\ b[1] = 0 THEN StripBits(Tail(b)) ELSE b

RECURSIVE TrimBits(_, _)
TrimBits(b, n) == IF b # <<>> /\ b[Len(b)] = 0 THEN TrimBits(Take(b, Len(b) - 1), n + 1) ELSE [b |-> b, n |-> n]
RECURSIVE IncBits(_)       \* add one to a bit sequence (may get longer)
IncBits(b) == IF b = <<>> THEN <<1>>
              ELSE IF b[Len(b)] = 0 THEN Take(b, Len(b) - 1) \o <<1>>
              ELSE IncBits(Take(b, Len(b) - 1)) \o <<0>>
\* b without its last k bits, rounded half to even
RoundOff(b, k) ==
  IF k <= 0 THEN b
  ELSE LET bb == IF k >= Len(b) THEN Reps(0, k + 1 - Len(b)) \o b ELSE b
           top == Take(bb, Len(bb) - k)
           rest == Drop(bb, Len(bb) - k)
           up == rest[1] = 1 /\ ((\E i \in 2..k : rest[i] = 1) \/ (top # <<>> /\ top[Len(top)] = 1))
       IN StripBits(IF up THEN IncBits(top) ELSE top)
Round53(b) == IF Len(b) <= 53 THEN b ELSE RoundOff(b, Len(b) - 53) \o Reps(0, Len(b) - 53)

SignedVal(s) ==      \* at most four octets
  FoldLeft(LAMBDA a, x : a * 256 + x, IF s[1] >= 128 THEN s[1] - 256 ELSE s[1], Tail(s))
Octets4(e) == << ((e \div 16777216) % 256), (e \div 65536) % 256, (e \div 256) % 256, e % 256 >>

\* -------- decimal text: sign, digits, fraction, exponent
LOCAL IsD(s, i) == i <= Len(s) /\ s[i] \in 48..57
RECURSIVE DigitsTo(_, _)      \* position after the digits starting at p
DigitsTo(s, p) == IF IsD(s, p) THEN DigitsTo(s, p + 1) ELSE p
RECURSIVE StripD(_)
StripD(d) == IF d # <<>> /\ d[1] = 0 THEN StripD(Tail(d)) ELSE d
LOCAL Ds(s) == [i \in 1..Len(s) |-> s[i] - 48]
LOCAL SmallDec(d) == IF Len(StripD(d)) > 5 THEN 99999 ELSE FoldLeft(LAMBDA a, x : a * 10 + x, 0, d)
RECURSIVE TrimDec(_, _)       \* no trailing zero digits
TrimDec(d, e) == IF d # <<>> /\ d[Len(d)] = 0 THEN TrimDec(Take(d, Len(d) - 1), e + 1) ELSE [ds |-> d, e |-> e]

\* nr = 1: integer only; nr = 2, 3: fraction and exponent allowed (as the library does)
DecimalParse(s, nr) ==
  LET sg == s # <<>> /\ s[1] \in {43, 45}
      p0 == IF sg THEN 2 ELSE 1
      p1 == DigitsTo(s, p0)
      dot == p1 <= Len(s) /\ s[p1] = 46
      p2 == IF dot THEN DigitsTo(s, p1 + 1) ELSE p1
      int == SubSeq(s, p0, p1 - 1)
      frac == IF dot THEN SubSeq(s, p1 + 1, p2 - 1) ELSE <<>>
      hasE == p2 <= Len(s) /\ s[p2] \in {69, 101}
      esg == hasE /\ p2 + 1 <= Len(s) /\ s[p2 + 1] \in {43, 45}
      p3 == IF hasE THEN (IF esg THEN p2 + 2 ELSE p2 + 1) ELSE p2
      p4 == IF hasE THEN DigitsTo(s, p3) ELSE p2
      x == IF hasE THEN SmallDec(Ds(SubSeq(s, p3, p4 - 1))) ELSE 0
      ex == IF esg /\ s[p2 + 1] = 45 THEN -x ELSE x
      ok == p4 > Len(s) /\ (int # <<>> \/ frac # <<>>) /\ (hasE => p4 > p3) /\ (nr = 1 => ~dot /\ ~hasE)
      t == TrimDec(StripD(Ds(int \o frac)), ex - Len(frac))
  IN IF ~ok THEN RV("err")
     ELSE IF t.ds = <<>> THEN RV("zero")
     ELSE [k |-> "dec", neg |-> IF sg /\ s[1] = 45 THEN 1 ELSE 0, ds |-> t.ds, e |-> t.e]

\* -------- decoding: RV("err") if malformed
RealParse(c) ==
  IF c = <<>> THEN RV("zero")
  ELSE LET f == c[1] IN
  IF f >= 128 THEN
    LET lf == (f % 4) = 3                       \* long form of exponent
        bad == lf /\ Len(c) < 2
        n == IF bad THEN 0 ELSE IF lf THEN c[2] ELSE (f % 4) + 1
        eo == IF bad THEN <<>> ELSE SubSeq(c, IF lf THEN 3 ELSE 2, (IF lf THEN 3 ELSE 2) + n - 1)
        mo == IF bad THEN <<>> ELSE Drop(c, (IF lf THEN 2 ELSE 1) + n)
        bb == (f \div 16) % 4
        mul == IF bb = 0 THEN 1 ELSE IF bb = 1 THEN 3 ELSE 4
        sf == (f \div 4) % 4
        e == SignedVal(eo)
        lim == 2147483647 \div mul
    IN IF bad \/ n = 0 \/ n + (IF lf THEN 2 ELSE 1) >= Len(c) \/ n > 4 \/ bb = 3 \/ Len(mo) > 8 THEN RV("err")
       ELSE IF e > lim \/ e < -(IF mul = 4 THEN lim + 1 ELSE IF mul = 3 THEN lim ELSE 2147483647) - (IF mul = 1 THEN 1 ELSE 0) THEN RV("err")
       ELSE LET m == Round53(StripBits(BitString(mo)))
            IN [k |-> "bin", neg |-> BitOf(f, 6), bits |-> IF m = <<>> THEN <<>> ELSE m \o Reps(0, sf),
                enc |-> IF bb = 0 THEN 2 ELSE IF bb = 1 THEN 8 ELSE 16, e |-> e * mul]
  ELSE IF f >= 64 THEN
    (IF Len(c) # 1 THEN RV("err")
     ELSE CASE f = 64 -> RV("inf") [] f = 65 -> RV("ninf") [] f = 66 -> RV("nan") [] OTHER -> RV("err"))
  ELSE IF f \in {1, 2, 3} THEN DecimalParse(Tail(c), f)
  ELSE RV("err")

BitsToOctets(b) == OctetsOfBits(Reps(0, (8 - (Len(b) % 8)) % 8) \o b)

FlatReal(r) ==
  CASE r.k = "zero" -> <<0>>
    [] r.k = "inf" -> <<1>>
    [] r.k = "ninf" -> <<2>>
    [] r.k = "nan" -> <<3>>
    [] r.k = "bin" -> <<4, r.neg, Len(BitsToOctets(r.bits))>> \o BitsToOctets(r.bits) \o <<2, r.enc, r.e>>
    [] r.k = "dec" -> <<5, r.neg, Len(r.ds)>> \o r.ds \o <<r.e>>

RealNorm(r) ==
  IF r.k = "bin" THEN (IF r.bits = <<>> THEN RV("zero") ELSE LET z == TrimBits(r.bits, 0) IN [k |-> "bin", neg |-> r.neg, bits |-> z.b, e |-> LET lo == (r.e % 65536) + z.n IN <<(r.e \div 65536) + (lo \div 65536), lo % 65536>>])
  ELSE r
\* -------- encoding of binary values: normalised (odd mantissa), minimal exponent
CountTrail(b) == LET k == CHOOSE k \in 0..Len(b) : (k = Len(b) \/ b[Len(b) - k] = 1) /\ \A j \in 0..(k - 1) : b[Len(b) - j] = 0 IN k
RealEnc(r) ==        \* content octets; <<-1>> when it cannot be encoded
  CASE r.k = "zero" -> <<>>
    [] r.k = "inf" -> <<64>>
    [] r.k = "ninf" -> <<65>>
    [] r.k = "nan" -> <<66>>
    [] r.k = "dec" ->
        <<3>> \o (IF r.neg = 1 THEN <<45>> ELSE <<>>) \o [i \in 1..Len(r.ds) |-> 48 + r.ds[i]]
        \o <<69>> \o (IF r.e = 0 THEN <<43>> ELSE IF r.e < 0 THEN <<45>> ELSE <<>>)
        \o Decimal(SmallArc(IF r.e < 0 THEN -r.e ELSE r.e))
    [] r.k = "bin" ->
        IF r.bits = <<>> THEN <<>>
        ELSE LET z == CountTrail(r.bits)
                 m == Take(r.bits, Len(r.bits) - z)
                 mul == IF r.enc = 2 THEN 1 ELSE IF r.enc = 8 THEN 3 ELSE 4
                 lim == 2147483647 \div mul
                 over == (r.e \div mul) > lim - (z \div mul)
                 e == (r.e \div mul) + (z \div mul)
                 sf == z % mul
                 eo == MinTwos(Octets4(e))
                 f == 128 + 64 * r.neg + (IF r.enc = 2 THEN 0 ELSE IF r.enc = 8 THEN 16 ELSE 32) + 4 * sf
             IN IF over THEN <<-1>>
                ELSE <<f + MinOf(Len(eo), 4) - 1>> \o (IF Len(eo) = 4 THEN <<4>> ELSE <<>>) \o eo \o BitsToOctets(m)

\* -------- IEEE formats: p bits of precision, exponent bias, octets
IeeeBits(neg, bits, e, p, bias, total) ==
  LET ebits == total - p IN
  IF bits = <<>> THEN <<neg>> \o Reps(0, total - 1)
  ELSE IF e > 5000 THEN <<neg>> \o Reps(1, ebits) \o Reps(0, p - 1)
  ELSE IF e < -5000 THEN <<neg>> \o Reps(0, total - 1)
  ELSE LET L == Len(bits)
           E0 == e + L - 1
           emin == 1 - bias
           q == IF E0 >= emin THEN L - p ELSE (emin - p + 1) - e       \* low bits to drop (negative: pad)
           m == IF q > 0 THEN RoundOff(bits, q) ELSE bits \o Reps(0, -q)
           \* exponent after rounding
           E1 == IF E0 >= emin THEN E0 + (Len(m) - p) ELSE emin
           mm == IF Len(m) > p THEN Take(m, p) ELSE m
       IN IF E1 > bias THEN <<neg>> \o Reps(1, ebits) \o Reps(0, p - 1)
          ELSE IF Len(mm) < p THEN <<neg>> \o Reps(0, ebits) \o Reps(0, p - 1 - Len(mm)) \o mm      \* subnormal
          ELSE LET fe == E1 + bias
               IN <<neg>> \o [k \in 1..ebits |-> (fe \div (2^(ebits - k))) % 2] \o Tail(mm)
FloatBytes(r, p, bias, total) ==
  LET ebits == total - p IN
  OctetsOfBits(
    CASE r.k = "zero" -> Reps(0, total)
      [] r.k = "inf" -> <<0>> \o Reps(1, ebits) \o Reps(0, p - 1)
      [] r.k = "ninf" -> <<1>> \o Reps(1, ebits) \o Reps(0, p - 1)
      [] r.k = "nan" -> <<0>> \o Reps(1, ebits + 1) \o Reps(0, p - 2)
      [] r.k = "bin" -> IeeeBits(r.neg, r.bits, r.e, p, bias, total))
F64Bytes(r) == FloatBytes(r, 53, 1023, 64)
\* through a double, as the library documents
F32Bytes(r) == IF r.k = "bin" /\ r.bits # <<>> /\ r.e + Len(r.bits) - 1 < -1022 /\ r.e < 0 THEN OctetsOfBits(<<r.neg>> \o Reps(0, 31)) ELSE FloatBytes(r, 24, 127, 32)
=============================================================================
