-------------------------------- MODULE Tlv --------------------------------
(***************************************************************************)
(* Identifier octets, length octets and extent of BER/DER objects          *)
(* (X.690 8.1): the big-step view. Framing.tla has the small-step view of  *)
(* the same thing, and the two are checked against each other.             *)
(*                                                                         *)
(* Every decoding function yields a record with field st:                  *)
(*   "ok"  decoded                                                         *)
(*   "err" malformed, whatever follows                                     *)
(*   "inc" a strict prefix of something; field k is the number of octets   *)
(*         known to be missing                                             *)
(***************************************************************************)
EXTENDS Bytes

CONSTANT Quirks      \* identifiers of the recorded findings the code still has (known_findings.json)
Q(k) == k \in Quirks

Err == [st |-> "err"]
Inc(k) == [st |-> "inc", k |-> MinOf(k, BIG)]

MaxDepth == 50       \* documented limit for nested indefinite lengths

(*------------------------------- identifier ------------------------------*)
\* position of the last octet of a long-form tag number starting at p, 0 if there is none
RECURSIVE TagEnd(_, _)
TagEnd(s, p) == IF p > Len(s) THEN 0 ELSE IF s[p] < 128 THEN p ELSE TagEnd(s, p + 1)

\* tag numbers are 32-bit: kept as two 16-bit halves
TagHalves(g) ==      \* g: one to five 7-bit groups
  LET h == Reps(0, 5 - Len(g)) \o g
  IN << (h[3] \div 4) + 32 * h[2] + 4096 * h[1], h[5] + 128 * h[4] + 16384 * (h[3] % 4) >>
TagInt(t) == IF t[1] < 16384 THEN t[1] * 65536 + t[2] ELSE -1

\* [st, tag, tl (octets of the identifier)]
ParseIdent(s, p) ==
  IF p > Len(s) THEN Inc(1)
  ELSE LET b0 == s[p] IN
       IF b0 % 32 # 31
       THEN [st |-> "ok", cls |-> b0 \div 64, cons |-> BitOf(b0, 5), tag |-> <<0, b0 % 32>>, tl |-> 1]
       ELSE LET e == TagEnd(s, p + 1)
                n == (IF e = 0 THEN Len(s) + 1 ELSE e) - p      \* octets available in the tag number
                g == [i \in 1..MinOf(n, 5) |-> IF p + i <= Len(s) THEN s[p + i] % 128 ELSE 0]
                fits == n <= 5 /\ (n = 5 => (g[1] < 16))
            IN IF e = 0
               THEN \* truncated: missing at least one octet, unless it is already too long
                    IF Q("K9") \/ Len(s) - p >= 5 \/ (Len(s) - p = 4 /\ g[1] >= 16) THEN Err ELSE Inc(1)
               ELSE IF fits THEN [st |-> "ok", cls |-> b0 \div 64, cons |-> BitOf(b0, 5), tag |-> TagHalves(g), tl |-> n + 1]
               ELSE Err

(*--------------------------------- header --------------------------------*)
\* [st, cls, cons, tag (halves), tl, def (is the length definite), lb (its significant octets), len, hl (octets of header)]
ParseHdr(s, p) ==
  LET id == ParseIdent(s, p) IN
  IF id.st # "ok" THEN id
  ELSE LET q == p + id.tl IN
  IF q > Len(s) THEN Inc(1)
  ELSE LET l0 == s[q]
           H(def, lb, hl) == [st |-> "ok", cls |-> id.cls, cons |-> id.cons, tag |-> id.tag, tl |-> id.tl,
                              def |-> def, lb |-> lb, len |-> LenVal(lb), hl |-> hl, t |-> TagInt(id.tag)]
       IN IF l0 = 128 THEN (IF id.cons = 1 THEN H(FALSE, <<>>, id.tl + 1) ELSE Err)
          ELSE IF l0 < 128 THEN H(TRUE, StripZeros(<<l0>>), id.tl + 1)
          ELSE IF l0 = 255 THEN Err
          ELSE LET n == l0 - 128 IN
               IF q + n > Len(s) THEN Inc(q + n - Len(s))
               ELSE LET lb == StripZeros(SubSeq(s, q + 1, q + n)) IN
                    IF Len(lb) > 8 THEN Err ELSE H(TRUE, lb, id.tl + 1 + n)

FlatHdr(h) == <<h.cls, h.cons, h.tag[1], h.tag[2], IF h.def THEN 1 ELSE 0, Len(h.lb)>> \o h.lb \o <<h.tl>>

(*--------------------------------- extent --------------------------------*)
\* only the two octets 00 00 mark the end of contents
IsEoc(h) == h.def /\ h.cls = 0 /\ h.cons = 0 /\ h.tag = <<0, 0>> /\ h.len = 0 /\ h.hl = 2

\* Skip the content at position p of an object with header h: [st, p (next position), eoc]
RECURSIVE Skip(_, _, _, _), SkipItems(_, _, _)
Skip(s, p, h, d) ==
  IF d = 0 THEN Err
  ELSE IF h.def
       THEN IF IsEoc(h) THEN [st |-> "ok", p |-> p, eoc |-> TRUE]
            ELSE IF h.len > Len(s) - p + 1 THEN Inc(h.len - (Len(s) - p + 1))
            ELSE [st |-> "ok", p |-> p + h.len, eoc |-> FALSE]
       ELSE SkipItems(s, p, d)
SkipItems(s, p, d) ==
  LET h == ParseHdr(s, p) IN
  IF h.st # "ok" THEN h
  ELSE LET r == Skip(s, p + h.hl, h, d - 1) IN
       IF r.st # "ok" THEN r
       ELSE IF r.eoc THEN [st |-> "ok", p |-> r.p, eoc |-> FALSE]
       ELSE SkipItems(s, r.p, d)

\* Content of the object with header h whose content starts at p: [st, c, p (position after the object)]
GetContent(m, s, p, h, d) ==
  IF h.def
  THEN IF d = 0 THEN Err
       ELSE IF h.len > Len(s) - p + 1 THEN Inc(h.len - (Len(s) - p + 1))
       ELSE [st |-> "ok", c |-> SubSeq(s, p, p + h.len - 1), p |-> p + h.len]
  ELSE IF m = "der" THEN Err
  ELSE LET r == Skip(s, p, h, d) IN
       IF r.st # "ok" THEN r
       ELSE [st |-> "ok", c |-> SubSeq(s, p, r.p - 3), p |-> r.p]

HdrFor(m, s, p) ==
  LET h == ParseHdr(s, p) IN IF h.st = "ok" /\ m = "der" /\ ~h.def THEN Err ELSE h

\* A complete object at position p: [st, h, c, p]
ParseObj(m, s, p) ==
  LET h == HdrFor(m, s, p) IN
  IF h.st # "ok" THEN h
  ELSE LET g == GetContent(m, s, p + h.hl, h, MaxDepth) IN
       IF g.st # "ok" THEN g ELSE [st |-> "ok", h |-> h, c |-> g.c, p |-> g.p]

\* All the objects in a content: [st, items]; truncation inside a complete content is an error
RECURSIVE ObjsFrom(_, _, _)
ObjsFrom(m, s, p) ==
  IF p > Len(s) THEN [st |-> "ok", items |-> <<>>]
  ELSE LET o == ParseObj(m, s, p) IN
       IF o.st # "ok" THEN Err
       ELSE LET r == ObjsFrom(m, s, o.p) IN
            IF r.st # "ok" THEN Err
            ELSE [st |-> "ok", items |-> <<[h |-> o.h, c |-> o.c, from |-> p, to |-> o.p]>> \o r.items]
Objs(m, c) == ObjsFrom(m, c, 1)

(*-------------------------------- encoding -------------------------------*)
RECURSIVE Groups7(_)
Groups7(n) == IF n < 128 THEN <<n>> ELSE Append(Groups7(n \div 128), n % 128)
EncIdent(cls, cons, t) ==
  IF t < 31 THEN <<64 * cls + 32 * cons + t>>
  ELSE LET g == Groups7(t) IN <<64 * cls + 32 * cons + 31>> \o [i \in 1..Len(g) |-> IF i < Len(g) THEN 128 + g[i] ELSE g[i]]
EncLen(n) == IF n < 128 THEN <<n>> ELSE LET o == OctetsOf(n) IN <<128 + Len(o)>> \o o
EncTlv(cls, cons, t, c) == EncIdent(cls, cons, t) \o EncLen(Len(c)) \o c
=============================================================================
