-------------------------------- MODULE Ints --------------------------------
(***************************************************************************)
(* INTEGER and ENUMERATED contents (X.690 8.3, 8.4).  Values are the       *)
(* two's-complement octets of the machine type, most significant first.    *)
(***************************************************************************)
EXTENDS Bytes

NonMinimal(c) == Len(c) >= 2 /\ ((c[1] = 0 /\ c[2] < 128) \/ (c[1] = 255 /\ c[2] >= 128))
RECURSIVE MinTwos(_)       \* shortest two's-complement form of the same number
MinTwos(c) == IF NonMinimal(c) THEN MinTwos(Tail(c)) ELSE c
Negative(c) == c[1] >= 128

\* the number denoted by content c, in n octets (signed or not); <<>> if it does not fit
ToMachine(c, signed, n) ==
  IF c = <<>> THEN <<>>
  ELSE LET t == MinTwos(c) IN
       IF signed
       THEN IF Len(t) > n THEN <<>> ELSE Reps(IF Negative(t) THEN 255 ELSE 0, n - Len(t)) \o t
       ELSE IF Negative(t) THEN <<>>
            ELSE LET u == StripZeros(t) IN IF Len(u) > n THEN <<>> ELSE Reps(0, n - Len(u)) \o u

\* content octets of a machine integer: the unique shortest form
FromMachine(v, signed) == IF signed THEN MinTwos(v) ELSE MinTwos(<<0>> \o v)
=============================================================================
