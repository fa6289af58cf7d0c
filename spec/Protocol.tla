------------------------------ MODULE Protocol ------------------------------
(***************************************************************************)
(* The operations of the conformance protocol: what each public entry      *)
(* point of the library does with an input. An outcome is                  *)
(*   [st, n, v]: "ok" with n octets consumed and value v,                  *)
(*               "err", "inc" with n octets announced missing,             *)
(*               "eerr" (encoding fails), "skip" (nothing is required)     *)
(***************************************************************************)
EXTENDS Types, Macros

OErr == [st |-> "err", n |-> 0, v |-> <<>>]
OInc(k) == [st |-> "inc", n |-> k, v |-> <<>>]
OOk(n, v) == [st |-> "ok", n |-> n, v |-> v]
OSkip == [st |-> "skip", n |-> 0, v |-> <<>>]
OTot == [st |-> "tot", n |-> 0, v |-> <<>>]
OEErr == [st |-> "eerr", n |-> 0, v |-> <<>>]
Bad(r) == IF r.st = "inc" THEN OInc(r.k) ELSE OErr

IsFloat(ty) == ty.k \in {"f32", "f64"}
Show(ty, r) == IF r.st # "ok" THEN Bad(r)
               ELSE IF IsFloat(ty) /\ r.v.k = "dec" THEN OSkip
               ELSE OOk(r.p - 1, Flat(ty, r.v))

AsInput(m, ty, s) ==
  LET h == HdrFor(m, s, 1) IN
  IF h.st # "ok" THEN Bad(h)
  ELSE IF ~Accepts(ty, h.t) THEN OErr
  ELSE LET g == GetContent(m, s, 1 + h.hl, h, MaxDepth) IN
       IF g.st # "ok" THEN Bad(g)
       ELSE OOk(g.p - 1, FlatHdr(h) \o <<h.hl, h.hl>> \o LV(g.c))

\* encode a value: total length, content length, octets of header and of content (returned and written), the encoding
EncShow(m, ty, v) ==
  LET c == EncContent(m, ty, v)
      e == Enc(m, ty, v)
  IN IF c = <<-1>> THEN OEErr
     ELSE [st |-> "ok", n |-> 0,
           v |-> <<Len(e), Len(c), Len(e) - Len(c), Len(c), Len(e) - Len(c), Len(c)>> \o LV(e)]
RECURSIVE EncJudged(_, _)
EncJudged(ty, v) ==      \* values whose encoding is specified exactly
  CASE IsFloat(ty) -> FALSE
    [] ty.k = "real" -> v.k # "dec" \/ Len(v.ds) <= 10
    [] ty.k \in {"utctime", "gentime"} -> TRUE
    [] ty.k = "any" -> v.h.t >= 0
    [] ty.k = "struct" -> \A i \in DOMAIN v : EncJudged(FieldType(ty.fs[i]), v[i])
    [] ty.k = "choice" -> EncJudged(ty.vs[v[1]].e, v[2])
    [] ty.k = "opt" -> v = <<>> \/ EncJudged(ty.e, v[1])
    [] ty.k = "anyset" -> Len(v) <= 1
    [] ty.k = "anyseq" -> \A i \in DOMAIN v : v[i].h.t >= 0
    [] OTHER -> TRUE
EncodeOp(m, ty, s) ==
  LET r == Parse("new", "ber", ty, s, 1) IN
  IF r.st # "ok" THEN OErr
  ELSE IF ~EncJudged(ty, r.v) THEN OSkip
  ELSE LET o == [EncShow(m, ty, r.v) EXCEPT !.n = r.p - 1] IN
       \* the iteration order of a hash set is not specified: BER leaves the order free, DER does not
       IF ty.k = "list" /\ ty.w = "hash" /\ Len(r.v) > 1 /\ o.st = "ok" /\ (m = "ber" \/ Q("K6")) THEN [o EXCEPT !.st = "perm"] ELSE o

FromAny(ty, s) ==
  LET o == ParseObj("ber", s, 1) IN
  IF o.st # "ok" THEN Bad(o)
  ELSE IF ~Accepts(ty, o.h.t) THEN OErr
  ELSE LET r == Content("old", "ber", ty, o.h, o.c) IN
       IF r.st # "ok" THEN OErr ELSE Show(ty, OkP(r.v, o.p))

\* the constraints of DER, checked on a generic object: what DER accepts satisfies them; what is only BER does not
Strict(ty) == ty.k \notin {"enum", "real", "f32", "f64", "any", "raw", "tag", "opt", "null", "unit", "seqraw", "setraw"}
Constraints(ty, s) ==
  LET o == ParseObj("ber", s, 1) IN
  IF o.st # "ok" THEN Bad(o)
  ELSE IF ~Accepts(ty, o.h.t) THEN OTot
  ELSE LET b == Content("old", "ber", ty, o.h, o.c) IN
       IF b.st # "ok" \/ ParseObj("der", s, 1).st # "ok" THEN OTot
       ELSE IF Content("old", "der", ty, o.h, o.c).st = "ok" THEN OOk(o.p - 1, <<>>)
       ELSE IF Strict(ty) /\ o.h.cls = 0 THEN OErr ELSE OTot

\* the arcs of an identifier: dotted text, number of arcs, the arcs as machine words if they all fit
ArcsOf(v) == IF Q("K13") /\ v.rel = 0 /\ v.c = <<0>> THEN <<<<0>>>> ELSE Arcs(v.rel = 1, v.c)
OidArcs(s) ==
  LET r == Parse("new", "ber", T0("oid"), s, 1) IN
  IF r.st # "ok" THEN OErr
  ELSE IF r.v.rel = 0 /\ ~FirstSupported(r.v.c) THEN OSkip
  ELSE LET a == ArcsOf(r.v)
           fits == \A i \in DOMAIN a : ArcU64(a[i]) # <<>>
       IN OOk(r.p - 1, LV(Dotted(a)) \o <<Len(a), IF fits THEN 1 ELSE 0>> \o (IF fits THEN Concat([i \in DOMAIN a |-> ArcU64(a[i])]) ELSE <<>>))
\* construction from machine-word arcs (each given as eight octets): x = <<relative, arcs>>
ArcOfU64(o) ==
  LET b == Reps(0, 6) \o BitString(o)
  IN StripZ([i \in 1..10 |-> FoldLeft(LAMBDA acc, k : acc * 2 + b[7 * (i - 1) + k], 0, <<1, 2, 3, 4, 5, 6, 7>>)])
OidFromArcs(x) ==
  LET rel == x[1] = 1
      a == [i \in DOMAIN x[2] |-> ArcOfU64(x[2][i])]
      supported == Len(a) >= 2 /\ Len(a[1]) = 1 /\ a[1][1] <= 2 /\ Len(a[2]) = 1 /\ a[2][1] < 40
  IN IF rel THEN (IF a = <<>> THEN OErr ELSE OOk(0, EncArcs(TRUE, a)))
     ELSE IF Q("K13") /\ a = <<<<0>>>> THEN OOk(0, <<0>>)
     ELSE IF Len(a) < 2 THEN OErr
     ELSE IF supported THEN OOk(0, EncArcs(FALSE, a)) ELSE OSkip

(*---------------------- tags chosen at run time --------------------------*)
\* x = <<class, number, octets>>
TagOp(m, ty, x, explicit) ==
  LET r == Parse("new", "ber", ty, x[3], 1) IN
  IF r.st # "ok" THEN OErr
  ELSE IF ~EncJudged(ty, r.v) \/ (ty.k = "opt" /\ r.v = <<>>) THEN OSkip
  ELSE LET c == EncContent(m, ty, r.v)
           id == Ident(IF ty.k = "opt" THEN ty.e ELSE ty, IF ty.k = "opt" THEN r.v[1] ELSE r.v)
       IN IF c = <<-1>> THEN OEErr
          ELSE OOk(r.p - 1, IF explicit THEN EncTlv(x[1], 1, x[2], Enc(m, ty, r.v)) ELSE EncTlv(x[1], id[2], x[2], c))
\* decoding an object of which the class and the number are given
BuilderExp(m, ty, x) ==
  LET o == ParseObj(m, x[3], 1) IN
  IF o.st # "ok" THEN Bad(o)
  ELSE IF o.h.cons = 0 \/ o.h.cls # x[1] \/ o.h.t # x[2] THEN OErr
  ELSE LET r == Parse("old", m, ty, o.c, 1) IN
       IF r.st # "ok" \/ (r.p <= Len(o.c) /\ ~Q("K7")) THEN OErr ELSE Show(ty, OkP(r.v, o.p))
BuilderImp(m, ty, x) ==
  LET o == ParseObj(m, x[3], 1) IN
  IF o.st # "ok" THEN Bad(o)
  ELSE IF o.h.cls # x[1] \/ o.h.t # x[2] \/ (ty.k = "list" /\ o.h.cons = 0) THEN OErr
  ELSE LET r == Content("old", m, ty, [o.h EXCEPT !.t = TyTag(ty)], o.c) IN
       IF r.st # "ok" THEN OErr ELSE Show(ty, OkP(r.v, o.p))
\* the same with a function applied to the content, which need not use all of it
WithContent(a, m, ty, o, opt) ==
  LET r == Parse(a, m, ty, o.c, 1) IN
  IF r.st # "ok" THEN Bad(r) ELSE Show(IF opt THEN TOpt(ty) ELSE ty, OkP(IF opt THEN <<r.v>> ELSE r.v, o.p))
OptBuilder(m, ty, x) ==
  IF x[3] = <<>> THEN OOk(0, <<0>>)
  ELSE LET o == ParseObj(m, x[3], 1) IN
       IF o.st # "ok" THEN Bad(o)
       ELSE IF o.h.t # x[2] THEN OOk(0, <<0>>)
       ELSE IF o.h.cls # x[1] THEN OErr       \* (documented)
       ELSE WithContent("old", m, ty, o, TRUE)
AndThen(m, ty, x) ==
  LET o == ParseObj(m, x[3], 1) IN
  IF o.st # "ok" THEN Bad(o)
  ELSE IF o.h.t # x[2] \/ o.h.cls # x[1] THEN OErr
  ELSE WithContent("old", m, ty, o, FALSE)
ContAndThen(a, m, tag, ty, s) ==
  LET o == ParseObj(m, s, 1) IN
  IF o.st # "ok" THEN Bad(o)
  ELSE IF o.h.t # tag \/ o.h.cons = 0 THEN OErr
  ELSE WithContent(a, m, ty, o, FALSE)

(*------------------------------ generic objects --------------------------*)
AnyStrTags == {12, 18, 19, 20, 21, 22, 25, 26, 27}
AnyStr(s, wide) ==
  LET o == ParseObj("ber", s, 1) IN
  IF o.st # "ok" THEN Bad(o)
  ELSE IF o.h.t \in AnyStrTags THEN (IF o.h.cons = 1 \/ ~Utf8Valid(o.c) THEN OErr ELSE OOk(o.p - 1, LV(o.c)))
  ELSE IF ~wide \/ o.h.t \notin {28, 30} THEN OErr
  ELSE LET r == Content("old", "ber", IF o.h.t = 28 THEN T0("univ") ELSE T0("bmp"), o.h, o.c) IN
       IF r.st # "ok" THEN OErr ELSE OOk(o.p - 1, LV(Utf8Bytes(r.v)))
RelOid(m, s) ==
  LET o == ParseObj(m, s, 1) IN
  IF o.st # "ok" THEN Bad(o)
  ELSE IF o.h.t # 13 \/ o.h.cons = 1 \/ ~OidWellFormed(o.c) THEN OErr
  ELSE OOk(o.p - 1, <<1>> \o LV(o.c))
AsOptional(ty, s) ==
  LET o == ParseObj("ber", s, 1) IN
  IF o.st # "ok" THEN Bad(o)
  ELSE IF ~Accepts(ty, o.h.t) THEN OOk(o.p - 1, <<0>>)
  ELSE LET r == Content("old", "ber", ty, o.h, o.c) IN IF r.st # "ok" THEN OErr ELSE Show(TOpt(ty), OkP(<<r.v>>, o.p))

(*------------------------------- INTEGER ---------------------------------*)
\* magnitude of a negative two's-complement number: invert and add one
Magnitude(c) ==
  IF c = <<>> \/ ~Negative(c) THEN StripZeros(c)
  ELSE LET b == BitString(c)
           inv == [i \in DOMAIN b |-> 1 - b[i]]
       IN StripZeros(BitsToOctets(IncBits(inv)))
IntAccess(s) ==
  LET r == Parse("new", "ber", T0("integer"), s, 1)
      A(signed, n) == LET v == ToMachine(r.v, signed, n) IN IF v = <<>> THEN <<0>> ELSE <<1>> \o v
  IN IF r.st # "ok" THEN OErr
     ELSE OOk(r.p - 1, A(FALSE, 1) \o A(FALSE, 2) \o A(FALSE, 4) \o A(FALSE, 8) \o A(FALSE, 16)
                       \o A(TRUE, 1) \o A(TRUE, 2) \o A(TRUE, 4) \o A(TRUE, 8) \o A(TRUE, 16)
                       \o (IF Negative(r.v) THEN <<0, 1>> ELSE <<1, 0>>) \o LV(Magnitude(r.v)))
(*--------------------------------- OID -----------------------------------*)
OidPrefix(x) ==
  LET good(c) == OidWellFormed(c) /\ FirstSupported(c) /\ \A i \in DOMAIN c : c[i] = 128 => (i > 1 /\ c[i - 1] >= 128) IN
  IF ~good(x[1]) \/ ~good(x[2]) THEN OSkip
  ELSE LET a == Arcs(FALSE, x[1])
           b == Arcs(FALSE, x[2])
       IN OOk(0, <<IF Len(b) <= Len(a) /\ Take(a, Len(b)) = b THEN 1 ELSE 0, IF a = b THEN 1 ELSE 0>>)
(*------------------------------ BIT STRING -------------------------------*)
\* made by other means than decoding, from the bits of some octets: without the last a of them; those from a to b
\* (excluded), also put together from two parts, or each inverted afterwards. x = <<how, octets, a, b>>
MadeBits(x) ==
  LET o == BitString(x[2])
      b == CASE x[1] = 0 -> Take(o, Len(o) - x[3])
             [] x[1] = 1 -> SubSeq(o, x[3] + 1, x[4])
             [] x[1] = 2 -> Take(o, x[3]) \o SubSeq(o, x[3] + 1, x[4])
             [] x[1] = 3 -> LET c == SubSeq(o, x[3] + 1, x[4]) IN [i \in DOMAIN c |-> 1 - c[i]]
      v == BitsVal(b)
  IN OOk(0, Flat(T0("bits"), v) \o LV(Enc("der", T0("bits"), v)))
(*--------------------------------- REAL ----------------------------------*)
\* the number m * 2^e survives encoding with any of the bases
RealBase(x) ==
  IF x[1] = 0 THEN OSkip
  ELSE OOk(0, F64Bytes([k |-> "bin", neg |-> IF x[1] < 0 THEN 1 ELSE 0, bits |-> StripBits(BitString(Octets4(IF x[1] < 0 THEN -x[1] ELSE x[1]))), enc |-> 2, e |-> x[2]]))
(*----------------------------- headers, lengths --------------------------*)
TagOctets(cls, cons, hi, lo) ==
  IF hi = 0 /\ lo < 31 THEN <<64 * cls + 32 * cons + lo>>
  ELSE LET g == <<hi \div 4096, (hi \div 32) % 128, 4 * (hi % 32) + (lo \div 16384), (lo \div 128) % 128, lo % 128>>
           z == StripZeros(g)
       IN <<64 * cls + 32 * cons + 31>> \o [i \in 1..Len(z) |-> IF i < Len(z) THEN 128 + z[i] ELSE z[i]]
EncHeader(x) ==
  LET b == TagOctets(x[1], x[2], x[3], x[4]) \o (IF x[5] < 0 THEN <<128>> ELSE EncLen(x[5]))
  IN OOk(0, LV(b) \o LV(b))
\* number of length octets, -1 when not supported (more than four octets)
LenLen(l) == LET b == StripZeros(l) IN IF b = <<>> \/ (Len(b) = 1 /\ b[1] < 128) THEN 1 ELSE IF Len(b) <= 4 THEN 1 + Len(b) ELSE -1
LengthHelpers(x) ==
  LET t == Len(TagOctets(0, 0, x[1], x[2]))
      l == IF x[3] = 0 THEN 1 ELSE LenLen(x[4])
  IN OOk(0, <<t, l, IF l = -1 THEN -1 ELSE t + l>>)
(*--------------------- containers built element by element ---------------*)
Built(name, x) ==
  LET e == IF name \in {"anyseq", "anyset"} THEN T0("any") ELSE TInt(FALSE, 1)
      rs == [i \in DOMAIN x |-> Parse("new", "ber", e, x[i], 1)]
      set == name \in {"set_iter", "setof", "anyset"}
      ty == IF name = "anyset" THEN T0("anyset") ELSE TList(IF set THEN "set" ELSE "seq", e)
      v == [i \in DOMAIN rs |-> rs[i].v]
  IN IF \E i \in DOMAIN rs : rs[i].st # "ok" THEN OErr ELSE OOk(0, Enc("der", ty, v))
\* indefinite lengths: a container of unknown length inside another one makes the length of the latter unknown too
IndefOp(name, x) ==
  LET items(l) == Concat([i \in DOMAIN l |-> EncTlv(0, 0, 2, FromMachine(<<l[i]>>, FALSE))])
      ind(id, c) == <<id, 128>> \o c \o <<0, 0>>
      iv(l) == ind(48, items(l))
      all == Concat([i \in DOMAIN x |-> iv(x[i])])
      eoc == IF Q("K2") THEN <<>> ELSE <<0, 0>>
      b == CASE name = "iv_u8" -> iv(x[1])
             [] name = "iv_iv" -> ind(48, all)
             [] name = "iv_v" -> ind(48, Concat([i \in DOMAIN x |-> EncTlv(0, 1, 16, items(x[i]))]))
             [] name = "v_iv" -> IF x = <<>> THEN <<48, 0>> ELSE <<48, 128>> \o all \o eoc
             [] name \in {"te_iv", "tve_iv"} -> <<161, 128>> \o iv(x[1]) \o eoc
             [] name \in {"ti_iv", "tvi_iv"} -> ind(161, items(x[1]))
  IN OOk(0, LV(b))
CollectAll(m, ty, s) == LET r == Items("new", m, ty, s) IN IF r.st # "ok" THEN OErr ELSE OOk(Len(s), Flat(TList("seq", ty), r.v))

(*----------------------------- moments in time ---------------------------*)
Moments(ty, s) ==
  LET r == Parse("new", "ber", ty, s, 1) IN
  IF r.st # "ok" THEN OErr
  ELSE LET v == r.v
           gen == ty.k = "gentime"
       IN OOk(r.p - 1, LV(TimeText(v, gen)) \o Moment(v)
            \o (IF gen THEN <<>> ELSE Moment(WithCentury(v)) \o (IF IsMoment(v) THEN <<1>> \o Instant(v) ELSE <<0>>)))
(*----------------- tagged values made from a generic object --------------*)
TaggedOf(explicit, ty, s) ==
  LET o == ParseObj("ber", s, 1) IN
  IF o.st # "ok" THEN Bad(o)
  ELSE IF o.h.t # ty.no \/ o.h.cls # ty.cls THEN OErr
  ELSE IF explicit
       THEN IF o.h.cons = 0 THEN OErr
            ELSE LET r == Parse("old", "ber", ty.e, o.c, 1) IN
                 IF r.st # "ok" \/ (r.p <= Len(o.c) /\ ~Q("K7")) THEN OErr ELSE Show(ty.e, OkP(r.v, o.p))
       ELSE IF ty.e.k = "list" /\ o.h.cons = 0 THEN OErr
            ELSE LET r == Content("old", "ber", ty.e, [o.h EXCEPT !.t = TyTag(ty.e)], o.c) IN
                 IF r.st # "ok" THEN OErr ELSE Show(ty.e, OkP(r.v, o.p))
\* the helpers which are given the number only: x = <<number, octets>>
TaggedNo(explicit, ty, x) ==
  LET h == ParseObj("der", x[2], 1) IN
  IF h.st # "ok" THEN Bad(h)
  ELSE IF explicit THEN BuilderExp("der", ty, <<h.h.cls, x[1], x[2]>>) ELSE BuilderImp("der", ty, <<h.h.cls, x[1], x[2]>>)
(*--------------- the inside of a generic object, as a value --------------*)
InsideAs(m, ty, s) == LET o == ParseObj("ber", s, 1) IN IF o.st # "ok" THEN Bad(o) ELSE Show(ty, Parse("old", m, ty, o.c, 1))
RECURSIVE UpToError(_, _, _)
UpToError(m, s, p) ==
  IF p > Len(s) THEN [items |-> <<>>, err |-> 0]
  ELSE LET o == ParseObj(m, s, p) IN
       IF o.st # "ok" THEN [items |-> <<>>, err |-> 1]
       ELSE LET r == UpToError(m, s, o.p) IN [r EXCEPT !.items = <<[h |-> o.h, c |-> o.c]>> \o @]
Inside(m, s) ==
  LET o == ParseObj("ber", s, 1) IN
  IF o.st # "ok" THEN Bad(o)
  ELSE LET os == UpToError(m, o.c, 1) IN
       OOk(o.p - 1, <<Len(os.items)>> \o Concat([i \in DOMAIN os.items |-> Flat(T0("any"), os.items[i])]) \o <<os.err>>)
(*------------------------- compile-time constants ------------------------*)
Constant(kind, k) ==
  CASE kind = "absolute" -> OOk(0, EncArcs(FALSE, MacroAbsolute[k]))
    [] kind = "passed" -> OOk(0, EncArcs(FALSE, MacroPassed[k]))
    [] kind = "relative" -> OOk(0, EncArcs(TRUE, MacroRelative[k]))
    [] kind = "number" -> OOk(0, FromMachine(MacroNumbers[k], FALSE))
    [] kind = "zero" -> OOk(0, <<0>>)      \* (K13: the only identifier of one arc)
(*------------------------- places of generic objects ---------------------*)
\* the spans of header and content of every generic object in a value that has been decoded successfully;
\* at: offset in the buffer of the object (or of the octet before s[1], for a sequence of octets)
Span(from, n) == <<from, from + n>>
RECURSIVE Places(_, _, _, _, _), PlacesIn(_, _, _, _, _), FieldPlaces(_, _, _, _, _, _)
\* ... in an object with header h and content c which begins at offset `at'
PlacesIn(m, ty, h, c, at) ==
  LET in == at + h.hl
      each(e) == LET os == Objs(m, c).items IN Concat([i \in DOMAIN os |-> PlacesIn(m, e, os[i].h, os[i].c, in + os[i].from - 1)])
  IN CASE ty.k = "any" -> Span(at, h.hl) \o Span(in, Len(c))
       [] ty.k \in {"list", "arr"} -> each(ty.e)
       [] ty.k \in {"anyseq", "anyset"} -> each(T0("any"))
       [] ty.k = "tup" -> FieldPlaces(m, [i \in DOMAIN ty.ts |-> [t |-> ty.ts[i], o |-> "req", d |-> 0, at |-> FALSE]], c, 1, 1, in)
       [] ty.k = "struct" -> FieldPlaces(m, ty.fs, c, 1, 1, in)
       [] ty.k = "opt" -> PlacesIn(m, ty.e, h, c, at)
       [] ty.k = "exp" -> Places(m, ty.e, c, 1, in)
       [] ty.k = "imp" -> PlacesIn(m, ty.e, h, c, at)
       [] ty.k = "choice" -> LET i == Content("new", m, ty, h, c).v[1]
                                 e == ty.vs[i].e
                             IN IF ty.w = "exp" THEN Places(m, e, c, 1, in) ELSE PlacesIn(m, e, h, c, at)
       [] OTHER -> <<>>
FieldPlaces(m, fs, c, p, i, in) ==
  IF i > Len(fs) THEN <<>>
  ELSE LET f == fs[i]
           here == f.o = "req" \/ (f.o \in {"opt", "def"} /\ p <= Len(c) /\ FieldPresent(f, HdrFor(m, c, p)))
           r == Parse("new", m, f.t, c, p)
           next == IF f.o = "octet" THEN p + 1 ELSE IF here THEN r.p ELSE p
       IN (IF f.o = "orig" THEN Span(in, Len(c)) ELSE IF here THEN Places(m, f.t, c, p, in) ELSE <<>>)
          \o FieldPlaces(m, fs, c, next, i + 1, in)
Places(m, ty, s, p, at) ==
  IF ty.k = "opt" THEN (IF Parse("new", m, ty, s, p).v = <<>> THEN <<>> ELSE Places(m, ty.e, s, p, at))
  ELSE LET o == ParseObj(m, s, p) IN PlacesIn(m, ty, o.h, o.c, at + p - 1)
Lead == 5      \* octets in front of the input
ShowPlaces(m, ty, s) ==
  LET r == Parse("new", m, ty, s, 1) IN
  IF r.st # "ok" THEN Bad(r) ELSE OOk(r.p - 1, Span(Lead + r.p - 1, Len(s) - r.p + 1) \o Places(m, ty, s, 1, Lead))
\* a closure over the content of a SEQUENCE or SET
PlacesThen(m, tag, s) ==
  LET o == ParseObj(m, s, 1) IN
  IF o.st # "ok" THEN Bad(o)
  ELSE IF o.h.t # tag \/ o.h.cons = 0 THEN OErr
  ELSE LET in == Lead + o.h.hl
           x == ParseObj(m, o.c, 1)
       IN IF x.st # "ok" THEN Bad(x)
          ELSE OOk(o.p - 1, Span(Lead + o.p - 1, Len(s) - o.p + 1) \o Span(Lead, o.h.hl) \o Span(in, Len(o.c))
                            \o Span(in + x.p - 1, Len(o.c) - x.p + 1) \o PlacesIn(m, T0("any"), x.h, x.c, in))
PlacesAs(m, ty, s) ==
  LET h == HdrFor(m, s, 1) IN
  IF h.st # "ok" THEN Bad(h)
  ELSE IF ~Accepts(ty, h.t) THEN OErr
  ELSE LET o == ParseObj(m, s, 1) IN
       IF o.st # "ok" THEN Bad(o)
       ELSE OOk(o.p - 1, Span(Lead + o.p - 1, Len(s) - o.p + 1) \o PlacesIn(m, T0("any"), o.h, o.c, Lead))

Outcome(api, ty, s) ==
  CASE api = "pb" -> Show(ty, Parse("new", "ber", ty, s, 1))
    [] api = "pd" -> Show(ty, Parse("new", "der", ty, s, 1))
    [] api = "lb" -> Show(ty, Parse("old", "ber", ty, s, 1))
    [] api = "ld" -> Show(ty, Parse("old", "der", ty, s, 1))
    [] api = "ob" -> Show(TOpt(ty), Parse("new", "ber", TOpt(ty), s, 1))
    [] api = "od" -> Show(TOpt(ty), Parse("new", "der", TOpt(ty), s, 1))
    [] api = "ib" -> AsInput("ber", ty, s)
    [] api = "id" -> AsInput("der", ty, s)
    [] api = "eb" -> EncodeOp("ber", ty, s)
    [] api = "ed" -> EncodeOp("der", ty, s)
    [] api = "oa" -> OidArcs(s)
    [] api = "oc" -> OidFromArcs(s)
    [] api = "ta" -> FromAny(ty, s)
    [] api = "cc" -> Constraints(ty, s)
    [] api = "ts" -> LET r == Parse("new", "ber", ty, s, 1) IN IF r.st # "ok" THEN OErr
                      ELSE IF ty.k = "header" THEN OOk(r.p - 1, FlatHdr(r.v)) ELSE Show(ty, r)
    [] api = "xb" -> TagOp("ber", ty, s, TRUE)
    [] api = "xd" -> TagOp("der", ty, s, TRUE)
    [] api = "yb" -> TagOp("ber", ty, s, FALSE)
    [] api = "yd" -> TagOp("der", ty, s, FALSE)
    [] api = "tb" -> BuilderExp("ber", ty, s)
    [] api = "td" -> BuilderExp("der", ty, s)
    [] api = "ub" -> BuilderImp("ber", ty, s)
    [] api = "ud" -> BuilderImp("der", ty, s)
    [] api = "vb" -> OptBuilder("ber", ty, s)
    [] api = "vd" -> OptBuilder("der", ty, s)
    [] api = "wb" -> AndThen("ber", ty, s)
    [] api = "wd" -> AndThen("der", ty, s)
    [] api = "qb" -> ContAndThen("old", "ber", 16, ty, s)
    [] api = "qd" -> ContAndThen("old", "der", 16, ty, s)
    [] api = "sb" -> ContAndThen("old", "ber", 17, ty, s)
    [] api = "sd" -> ContAndThen("old", "der", 17, ty, s)
    [] api = "rb" -> ContAndThen("new", "ber", 16, ty, s)
    [] api = "rd" -> ContAndThen("new", "der", 16, ty, s)
    [] api = "zb" -> ContAndThen("new", "ber", 17, ty, s)
    [] api = "zd" -> ContAndThen("new", "der", 17, ty, s)
    [] api = "tm" -> IF ty.k = "name" THEN (IF ty.n = "reloid" THEN RelOid("ber", s) ELSE AnyStr(s, ty.n = "anystring")) ELSE FromAny(ty, s)
    [] api = "ao" -> AsOptional(ty, s)
    [] api = "ia" -> IntAccess(s)
    [] api = "rl" -> RelOid("ber", s)
    [] api = "rm" -> RelOid("der", s)
    [] api = "sw" -> OidPrefix(s)
    [] api = "re" -> RealBase(s)
    [] api = "bt" -> MadeBits(s)
    [] api = "hd" -> EncHeader(s)
    [] api = "hl" -> LengthHelpers(s)
    [] api = "bl" -> Built(ty.n, s)
    [] api = "ei" -> IndefOp(ty.n, s)
    [] api = "dt" -> Moments(ty, s)
    [] api = "ax" -> TaggedOf(TRUE, ty, s)
    [] api = "ay" -> TaggedOf(FALSE, ty, s)
    [] api = "gx" -> TaggedNo(TRUE, ty, s)
    [] api = "gy" -> TaggedNo(FALSE, ty, s)
    [] api = "cn" -> InsideAs("ber", ty, s)
    [] api = "cm" -> InsideAs("der", ty, s)
    [] api = "ie" -> Inside("ber", s)
    [] api = "if" -> Inside("der", s)
    [] api = "Xb" -> TagOp("ber", ty, s, TRUE)
    [] api = "Xd" -> TagOp("der", ty, s, TRUE)
    [] api = "Yb" -> TagOp("ber", ty, s, FALSE)
    [] api = "Yd" -> TagOp("der", ty, s, FALSE)
    [] api = "mc" -> Constant(ty.n, s)
    [] api = "pp" -> ShowPlaces("ber", ty, s)
    [] api = "pq" -> ShowPlaces("der", ty, s)
    [] api = "Rb" -> PlacesThen("ber", 16, s)
    [] api = "Rd" -> PlacesThen("der", 16, s)
    [] api = "Zb" -> PlacesThen("ber", 17, s)
    [] api = "Zd" -> PlacesThen("der", 17, s)
    [] api = "Ib" -> PlacesAs("ber", ty, s)
    [] api = "Id" -> PlacesAs("der", ty, s)
    [] api = "Ob" -> PlacesAs("ber", T0("octets"), s)
    [] api = "Od" -> PlacesAs("der", T0("octets"), s)
    [] api = "cb" -> CollectAll("ber", ty, s)
    [] api = "cd" -> CollectAll("der", ty, s)
=============================================================================
