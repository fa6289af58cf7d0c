-------------------------------- MODULE Types -------------------------------
(***************************************************************************)
(* The types of the library and what it means to decode and encode them.   *)
(*                                                                         *)
(* A type is a record with field k (kind). Decoding is a function of       *)
(*   a : "new" the Input-based traits (BerParser, DerParser)               *)
(*       "old" the slice-based traits (FromBer, FromDer)                   *)
(*   m : "ber" or "der"                                                    *)
(* Deviations of the code from the properties are under Q("K..") and       *)
(* listed in known_findings.json; Quirks = {} gives the ideal.             *)
(***************************************************************************)
EXTENDS Tlv, Strs, Times, RealNums, Desc

Ok(v) == [st |-> "ok", v |-> v]
OkP(v, p) == [st |-> "ok", v |-> v, p |-> p]

TyTag(ty) ==       \* universal tag number
  CASE ty.k \in {"int", "integer"} -> 2
    [] ty.k \in {"bool", "boolean"} -> 1
    [] ty.k = "null" -> 5
    [] ty.k = "enum" -> 10
    [] ty.k \in {"octets", "octetsP"} -> 4
    [] ty.k = "bits" -> 3
    [] ty.k = "oid" -> 6
    [] ty.k \in {"str", "raw"} -> ty.t
    [] ty.k = "bmp" -> 30
    [] ty.k = "univ" -> 28
    [] ty.k = "utctime" -> 23
    [] ty.k = "gentime" -> 24
    [] ty.k \in {"real", "f32", "f64"} -> 9
    [] ty.k = "list" -> IF ty.w = "seq" THEN 16 ELSE 17
    [] ty.k \in {"arr", "tup", "anyseq"} -> 16
    [] ty.k = "anyset" -> 17
    [] ty.k = "eoc" -> 0
    [] ty.k = "struct" -> StructNo(ty)
    [] ty.k = "denum" -> 10

RECURSIVE Accepts(_, _)
\* is an object with tag number t (any class) taken for one of this type?
Accepts(ty, t) ==
  CASE ty.k = "any" -> TRUE
    [] ty.k = "oid" -> t \in {6, 13}
    [] ty.k = "opt" -> Accepts(ty.e, t)
    [] ty.k \in {"exp", "imp"} -> t = ty.no
    [] ty.k = "choice" -> \E i \in DOMAIN ty.vs : IF ty.w = "un" THEN Accepts(ty.vs[i].e, t) ELSE t = ty.vs[i].no
    [] OTHER -> t = TyTag(ty)
\* is the next object, of class cls and tag t, this optional element?
RECURSIVE Present(_, _, _)
Present(ty, cls, t) ==
  IF ty.k \in {"exp", "imp"} /\ ~Q("K1") THEN t = ty.no /\ cls = ty.cls
  ELSE IF ty.k = "choice" /\ ty.w # "un" /\ ~Q("K1") THEN cls = 2 /\ Accepts(ty, t)
  ELSE Accepts(ty, t)

(*-------------------------------- contents -------------------------------*)
RECURSIVE Segments(_, _, _, _)
\* the primitive segments of a string of tag t: [st, segs]
Segments(h, c, t, limit) ==
  IF limit = 0 THEN Err
  ELSE IF h.cons = 0 THEN [st |-> "ok", segs |-> <<c>>]
  ELSE LET os == Objs("ber", c) IN
       IF os.st # "ok" \/ \E i \in DOMAIN os.items : os.items[i].h.t # t THEN Err
       ELSE LET rs == [i \in DOMAIN os.items |-> Segments(os.items[i].h, os.items[i].c, t, limit - 1)] IN
            IF \E i \in DOMAIN rs : rs[i].st # "ok" THEN Err
            ELSE [st |-> "ok", segs |-> Concat([i \in DOMAIN rs |-> rs[i].segs])]
SegLimit == 5

\* octets of a string in primitive or constructed form
OctetsContent(m, h, c, prim) ==
  IF h.cons = 0 THEN Ok(c)
  ELSE IF m = "der" \/ prim THEN Err
  ELSE LET r == Segments(h, c, 4, SegLimit) IN IF r.st = "ok" THEN Ok(Concat(r.segs)) ELSE Err

\* bits of one segment: [st, b]
SegBits(c) ==
  IF c = <<>> THEN Err
  ELSE IF c[1] > 7 \/ (Len(c) = 1 /\ c[1] > 0) THEN Err
  ELSE LET b == BitString(Tail(c)) IN [st |-> "ok", b |-> Take(b, Len(b) - c[1])]
BitsVal(b) == [n |-> Len(b), o |-> OctetsOfBits(b)]
BitsContent(m, h, c) ==
  IF h.cons = 0
  THEN LET r == SegBits(c) IN
       IF r.st # "ok" THEN Err
       ELSE IF m = "der" /\ Len(c) > 1 /\ c[Len(c)] % Pow2(c[1]) # 0 THEN Err
       ELSE Ok(BitsVal(r.b))
  ELSE IF m = "der" THEN Err
  ELSE LET r == Segments(h, c, 3, SegLimit) IN
       IF r.st # "ok" THEN Err
       ELSE LET rs == [i \in DOMAIN r.segs |-> SegBits(r.segs[i])] IN
            IF \E i \in DOMAIN rs : rs[i].st # "ok" THEN Err
            ELSE IF ~Q("K8") /\ \E i \in 1..(Len(rs) - 1) : r.segs[i][1] # 0 THEN Err
            ELSE Ok(BitsVal(Concat([i \in DOMAIN rs |-> rs[i].b])))

SortVals(ss) == SortLex(ss)

RECURSIVE Content(_, _, _, _, _), Parse(_, _, _, _, _), Items(_, _, _, _), TupFrom(_, _, _, _, _), Fields(_, _, _, _, _, _)
RECURSIVE Flat(_, _)
\* every object in content c must be an e; "no" stands for a failure
Items(a, m, e, c) ==
  LET os == Objs(m, c) IN
  IF os.st # "ok" THEN Err
  ELSE LET rs == [i \in DOMAIN os.items |->
                    IF ~Accepts(e, os.items[i].h.t) THEN Err ELSE Content(a, m, e, os.items[i].h, os.items[i].c)]
       IN IF \E i \in DOMAIN rs : rs[i].st # "ok" THEN Err ELSE Ok([i \in DOMAIN rs |-> rs[i].v])

TupFrom(m, ts, c, p, i) ==
  IF i > Len(ts) THEN (IF p <= Len(c) /\ ~Q("K7") THEN Err ELSE Ok(<<>>))
  ELSE LET r == Parse("new", m, ts[i], c, p) IN
       IF r.st # "ok" THEN Err
       ELSE LET s == TupFrom(m, ts, c, r.p, i + 1) IN IF s.st # "ok" THEN s ELSE Ok(<<r.v>> \o s.v)

\* the fields of a derived container, from field i at position p of its content. An optional field is absent at the
\* end of the content or when the next element is another one; elements after the last field are ignored (documented)
FieldPresent(f, h) == IF f.at THEN h.cls = f.t.cls /\ h.t = f.t.no ELSE Accepts(f.t, h.t)
Fields(a, m, fs, c, p, i) ==
  IF i > Len(fs) THEN Ok(<<>>)
  ELSE LET f == fs[i]
           h == HdrFor(m, c, p)
           absent == OkP(IF f.o = "def" THEN f.d ELSE <<>>, p)
           present == Parse(a, m, f.t, c, p)
           r == CASE f.o = "const" -> OkP(f.d, p)
                  [] f.o = "orig" -> OkP(c, p)
                  [] f.o = "octet" -> IF p > Len(c) THEN Err ELSE OkP(<<c[p]>>, p + 1)
                  [] f.o = "req" -> present
                  [] OTHER -> IF p > Len(c) THEN absent
                              ELSE IF h.st # "ok" THEN Err
                              ELSE IF ~FieldPresent(f, h) THEN absent
                              ELSE IF present.st = "ok" /\ f.o = "opt" THEN OkP(<<present.v>>, present.p) ELSE present
       IN IF r.st # "ok" THEN Err
          ELSE LET s == Fields(a, m, fs, c, r.p, i + 1) IN IF s.st # "ok" THEN s ELSE Ok(<<r.v>> \o s.v)

\* Value of type ty with header h and complete content c (the tag has been checked where it has to be)
Content(a, m, ty, h, c) ==
  LET prim == h.cons = 0 IN
  CASE ty.k = "int" ->
         IF ~prim \/ (m = "der" /\ NonMinimal(c)) THEN Err
         ELSE LET v == ToMachine(c, ty.s, ty.n) IN IF v = <<>> THEN Err ELSE Ok(v)
    [] ty.k = "integer" -> IF ~prim \/ (m = "der" /\ NonMinimal(c)) \/ (c = <<>> /\ ~Q("IE")) THEN Err ELSE Ok(c)
    [] ty.k = "enum" ->
         IF ~prim \/ (m = "der" /\ (a = "new" \/ ~Q("K11")) /\ NonMinimal(c)) THEN Err
         ELSE LET v == ToMachine(c, FALSE, 4) IN IF v = <<>> THEN Err ELSE Ok(v)
    [] ty.k \in {"bool", "boolean"} ->
         IF ~prim \/ Len(c) # 1 \/ (m = "der" /\ c[1] \notin {0, 255}) THEN Err ELSE Ok(c[1])
    [] ty.k = "null" -> IF ~prim \/ c # <<>> THEN Err ELSE Ok(0)
    [] ty.k = "eoc" -> IF ~h.def \/ c # <<>> THEN Err ELSE Ok(0)
    [] ty.k = "octets" -> OctetsContent(m, h, c, FALSE)
    [] ty.k = "octetsP" -> OctetsContent(m, h, c, TRUE)
    [] ty.k = "bits" -> BitsContent(m, h, c)
    [] ty.k = "oid" -> IF ~prim \/ ~OidWellFormed(c) THEN Err ELSE Ok([rel |-> IF h.cls = 0 /\ h.t = 13 THEN 1 ELSE 0, c |-> c])
    [] ty.k = "str" ->
         LET r == OctetsContent(m, h, c, ty.prim) IN
         IF r.st # "ok" \/ ~StrValid(ty.cs, r.v) THEN Err ELSE r
    [] ty.k = "bmp" ->
         LET r == OctetsContent(m, h, c, FALSE) IN
         IF r.st # "ok" THEN Err ELSE LET v == BmpChars(r.v) IN IF v # <<>> /\ v[1] = -1 THEN Err ELSE Ok(v)
    [] ty.k = "univ" ->
         LET r == OctetsContent(m, h, c, FALSE) IN
         IF r.st # "ok" THEN Err ELSE LET v == UniversalChars(r.v) IN IF v # <<>> /\ v[1] = -1 THEN Err ELSE Ok(v)
    [] ty.k = "utctime" ->
         LET v == TimeParse(c, FALSE) IN IF ~prim \/ v = <<>> THEN Err ELSE Ok(v)
    [] ty.k = "gentime" ->
         LET v == TimeParse(c, TRUE) IN IF ~prim \/ v = <<>> \/ (m = "der" /\ ~GenTimeDer(c)) THEN Err ELSE Ok(v)
    [] ty.k \in {"real", "f32", "f64"} ->
         LET v == RealParse(c) IN IF ~prim \/ v.k = "err" THEN Err ELSE Ok(v)
    [] ty.k = "raw" -> IF prim THEN Err ELSE Ok(c)
    [] ty.k = "any" -> Ok([h |-> h, c |-> c])
    [] ty.k = "list" ->
         IF prim /\ ~(a = "old" /\ m = "der" /\ ty.w \in {"seq", "set"}) THEN Err
         ELSE LET r == Items(a, m, ty.e, c) IN
              IF r.st # "ok" \/ ty.w \notin {"ord", "hash"} THEN r
              ELSE Ok(Dedup(SortVals(r.v)))
    [] ty.k = "arr" ->
         IF prim THEN Err
         ELSE LET r == Items(a, m, ty.e, c) IN IF r.st # "ok" \/ Len(r.v) # ty.n THEN Err ELSE r
    [] ty.k \in {"anyseq", "anyset"} ->
         IF prim THEN Err ELSE Items(a, m, T0("any"), c)
    [] ty.k = "tup" -> IF prim /\ ~Q("K7") THEN Err ELSE TupFrom(m, ty.ts, c, 1, 1)
    [] ty.k = "struct" -> LET aa == IF ty.w = "pdv" THEN "new" ELSE a IN IF prim /\ aa = "new" THEN Err ELSE Fields(aa, m, ty.fs, c, 1, 1)
    [] ty.k = "denum" ->
         LET r == Content(a, m, T0("enum"), h, c) IN IF r.st # "ok" \/ r.v \notin ty.vals THEN Err ELSE r
    [] ty.k = "choice" ->
         LET is == {i \in DOMAIN ty.vs : IF ty.w = "un" THEN Accepts(ty.vs[i].e, h.t) ELSE h.t = ty.vs[i].no} IN
         IF is = {} \/ (ty.w # "un" /\ h.cls # 2) THEN Err
         ELSE LET i == CHOOSE i \in is : \A j \in is : i <= j
                  e == ty.vs[i].e
                  r == CASE ty.w = "un" -> Content(a, m, e, h, c)
                         [] ty.w = "exp" -> Content(a, m, TExp(2, ty.vs[i].no, e), h, c)
                         [] ty.w = "imp" -> Content(a, m, TImp(2, ty.vs[i].no, e), h, c)
              IN IF r.st # "ok" THEN Err ELSE Ok(<<i, r.v>>)
    [] ty.k = "opt" -> LET r == Content(a, m, ty.e, h, c) IN IF r.st # "ok" THEN r ELSE Ok(<<r.v>>)
    [] ty.k = "exp" ->
         IF prim \/ h.cls # ty.cls \/ (a = "new" /\ Q("K10") /\ h.t # ty.no) THEN Err
         ELSE LET r == Parse(a, m, ty.e, c, 1) IN
              IF r.st # "ok" THEN Err
              ELSE IF r.p <= Len(c) /\ ~Q("K7") THEN Err
              ELSE Ok(r.v)
    [] ty.k = "imp" ->
         IF h.cls # ty.cls \/ (ty.e.k = "list" /\ prim) THEN Err
         ELSE LET hh == IF ty.e.k \in {"exp", "imp"} /\ ~(a = "new" /\ Q("K10"))
                        THEN [h EXCEPT !.cls = ty.e.cls, !.t = ty.e.no]
                        ELSE IF a = "old" /\ ty.e.k = "oid" THEN [h EXCEPT !.t = 6]
                        ELSE IF a = "old" /\ ty.e.k = "exp" THEN [h EXCEPT !.t = ty.e.no]
                        ELSE h
                  mm == IF a = "old" /\ Q("K3") THEN "ber" ELSE m
              IN Content(a, mm, ty.e, hh, c)

\* Value of type ty at position p: [st, v, p]
Parse(a, m, ty, s, p) ==
  IF ty.k = "header" THEN
    LET h == HdrFor(m, s, p) IN IF h.st # "ok" THEN h ELSE OkP(h, p + h.hl)
  ELSE IF ty.k = "opt" THEN
    IF p > Len(s) THEN OkP(<<>>, p)
    ELSE LET h == HdrFor(m, s, p) IN
         IF h.st # "ok" THEN h
         ELSE IF ~Present(ty.e, h.cls, h.t) THEN OkP(<<>>, p)
         ELSE LET r == Parse(a, m, ty.e, s, p) IN IF r.st # "ok" THEN r ELSE OkP(<<r.v>>, r.p)
  ELSE LET h == HdrFor(m, s, p) IN
       IF h.st # "ok" THEN h
       ELSE IF a = "new" /\ ~Accepts(ty, h.t) THEN Err
       ELSE LET g == GetContent(m, s, p + h.hl, h, MaxDepth) IN
            IF g.st # "ok" THEN g
            ELSE IF ~Accepts(ty, h.t) THEN Err
            ELSE LET r == Content(a, m, ty, h, g.c) IN
                 IF r.st # "ok" THEN Err ELSE OkP(r.v, g.p)

(*------------------------- observation of a value ------------------------*)
LV(s) == <<Len(s)>> \o s
\* the type of what is kept of a field
FieldType(f) == IF f.o = "opt" THEN TOpt(f.t) ELSE f.t
Flat(ty, v) ==
  CASE ty.k \in {"int", "enum"} -> v
    [] ty.k = "bool" -> <<IF v = 0 THEN 0 ELSE 1>>
    [] ty.k = "boolean" -> <<v, IF v = 0 THEN 0 ELSE 1>>
    [] ty.k \in {"null", "eoc"} -> <<>>
    [] ty.k \in {"integer", "octets", "octetsP", "str", "bmp", "univ", "raw"} -> LV(v)
    [] ty.k = "bits" -> <<v.n>> \o LV(v.o)
    [] ty.k = "oid" -> <<v.rel>> \o LV(v.c)
    [] ty.k \in {"utctime", "gentime"} -> v
    [] ty.k = "real" -> FlatReal(v)
    [] ty.k = "f64" -> F64Bytes(v)
    [] ty.k = "f32" -> F32Bytes(v)
    [] ty.k = "header" -> FlatHdr(v) \o <<v.hl>>
    [] ty.k = "any" -> FlatHdr(v.h) \o LV(v.c)
    [] ty.k \in {"list", "arr"} -> <<Len(v)>> \o Concat([i \in DOMAIN v |-> Flat(ty.e, v[i])])
    [] ty.k = "anyseq" -> <<Len(v)>> \o Concat([i \in DOMAIN v |-> Flat(T0("any"), v[i])])
    [] ty.k = "anyset" -> LET fs == SortLex([i \in DOMAIN v |-> Flat(T0("any"), v[i])]) IN <<Len(fs)>> \o Concat(fs)
    [] ty.k = "tup" -> Concat([i \in DOMAIN v |-> Flat(ty.ts[i], v[i])])
    [] ty.k = "opt" -> IF v = <<>> THEN <<0>> ELSE <<1>> \o Flat(ty.e, v[1])
    [] ty.k \in {"exp", "imp"} -> Flat(ty.e, v)
    [] ty.k = "struct" -> Concat([i \in DOMAIN v |-> Flat(FieldType(ty.fs[i]), v[i])])
    [] ty.k = "choice" -> <<v[1]>> \o Flat(ty.vs[v[1]].e, v[2])
    [] ty.k = "denum" -> v

(*--------------------------- equality of values --------------------------*)
\* what two equal values have in common: the header of a generic object only counts by class, form and tag,
\* a REAL counts by its number and a time by its fields
RECURSIVE Norm(_, _)
Norm(ty, v) ==
  CASE ty.k = "any" -> <<v.h.cls, v.h.cons, v.h.tag, v.c>>
    [] ty.k \in {"anyseq", "anyset"} -> LET s == [i \in DOMAIN v |-> Norm(T0("any"), v[i])] IN IF ty.k = "anyseq" THEN s ELSE [x \in {s[i] : i \in DOMAIN s} |-> Cardinality({i \in DOMAIN s : s[i] = x})]
    [] ty.k = "list" -> LET s == [i \in DOMAIN v |-> Norm(ty.e, v[i])] IN
                        IF ty.w = "seq" THEN s
                        ELSE [x \in {s[i] : i \in DOMAIN s} |-> Cardinality({i \in DOMAIN s : s[i] = x})]
    [] ty.k = "arr" -> [i \in DOMAIN v |-> Norm(ty.e, v[i])]
    [] ty.k = "tup" -> [i \in DOMAIN v |-> Norm(ty.ts[i], v[i])]
    [] ty.k = "opt" -> [i \in DOMAIN v |-> Norm(ty.e, v[i])]
    [] ty.k \in {"exp", "imp"} -> Norm(ty.e, v)
    [] ty.k = "struct" -> [i \in DOMAIN v |-> Norm(FieldType(ty.fs[i]), v[i])]
    [] ty.k = "choice" -> <<v[1], Norm(ty.vs[v[1]].e, v[2])>>
    [] ty.k = "real" -> RealNorm(v)
    [] ty.k \in {"bool", "boolean"} -> v # 0
    [] ty.k = "gentime" -> [v EXCEPT ![7] = MaxOf(@, 0)]
    [] OTHER -> v
\* values whose encoding denotes the same value: a time is always written in zone Z (K5)
RECURSIVE Faithful(_, _)
Faithful(ty, v) ==
  CASE ty.k \in {"utctime", "gentime"} -> v[8] = 1
    [] ty.k \in {"list", "arr"} -> \A i \in DOMAIN v : Faithful(ty.e, v[i])
    [] ty.k = "opt" -> \A i \in DOMAIN v : Faithful(ty.e, v[i])
    [] ty.k \in {"exp", "imp"} -> Faithful(ty.e, v)
    [] ty.k = "struct" -> \A i \in DOMAIN v : Faithful(FieldType(ty.fs[i]), v[i])
    [] ty.k = "choice" -> Faithful(ty.vs[v[1]].e, v[2])
    [] OTHER -> TRUE

(*-------------------------------- encoding -------------------------------*)
RECURSIVE EncContent(_, _, _), Enc(_, _, _), Ident(_, _)
\* <<class, constructed, tag>>
Ident(ty, v) ==
  CASE ty.k = "any" -> <<v.h.cls, v.h.cons, v.h.t>>
    [] ty.k = "oid" -> <<0, 0, IF v.rel = 1 THEN 13 ELSE 6>>
    [] ty.k \in {"raw", "list", "arr", "anyseq", "anyset", "tup"} -> <<0, 1, TyTag(ty)>>
    [] ty.k = "struct" -> <<0, 1, TyTag(ty)>>
    [] ty.k = "choice" -> LET id == Ident(ty.vs[v[1]].e, v[2]) IN
                           IF ty.w = "un" THEN id ELSE <<2, IF ty.w = "exp" THEN 1 ELSE id[2], ty.vs[v[1]].no>>
    [] ty.k = "exp" -> <<ty.cls, 1, ty.no>>
    [] ty.k = "imp" -> <<ty.cls, Ident(ty.e, v)[2], ty.no>>
    [] OTHER -> <<0, 0, TyTag(ty)>>

EncList(m, e, v, sorted) ==
  LET es == [i \in DOMAIN v |-> Enc(m, e, v[i])] IN Concat(IF m = "der" /\ sorted THEN SortLex(es) ELSE es)

\* content octets; <<-1>> if the value has no encoding
EncContent(m, ty, v) ==
  CASE ty.k = "int" -> FromMachine(v, ty.s)
    [] ty.k = "enum" -> FromMachine(v, FALSE)
    [] ty.k = "bool" -> <<IF v = 0 THEN 0 ELSE 255>>
    [] ty.k = "boolean" -> IF m = "ber" THEN <<v>> ELSE <<IF v = 0 THEN 0 ELSE 255>>
    [] ty.k \in {"null", "eoc"} -> <<>>
    [] ty.k = "integer" -> v
    [] ty.k \in {"octets", "octetsP", "str", "raw"} -> v
    [] ty.k = "bmp" -> Utf16Bytes(v)
    [] ty.k = "univ" -> Utf32Bytes(v)
    [] ty.k = "bits" -> <<(8 - (v.n % 8)) % 8>> \o v.o
    [] ty.k = "oid" -> v.c
    [] ty.k = "utctime" -> TimeEnc(v, FALSE)
    [] ty.k = "gentime" -> TimeEnc(v, TRUE)
    [] ty.k = "real" -> RealEnc(v)
    [] ty.k = "any" -> v.c
    [] ty.k = "list" -> EncList(m, ty.e, v, ty.w # "seq")
    [] ty.k = "arr" -> EncList(m, ty.e, v, FALSE)
    [] ty.k = "anyseq" -> EncList(m, T0("any"), v, FALSE)
    [] ty.k = "anyset" -> EncList(m, T0("any"), v, TRUE)
    [] ty.k = "opt" -> IF v = <<>> THEN <<>> ELSE EncContent(m, ty.e, v[1])
    \* (a value equal to the default of its field is written, too)
    [] ty.k = "struct" -> Concat([i \in DOMAIN v |-> Enc(m, FieldType(ty.fs[i]), v[i])])
    [] ty.k = "choice" -> IF ty.w = "exp" THEN Enc(m, ty.vs[v[1]].e, v[2]) ELSE EncContent(m, ty.vs[v[1]].e, v[2])
    [] ty.k = "denum" -> FromMachine(v, FALSE)
    [] ty.k = "exp" -> Enc(m, ty.e, v)
    [] ty.k = "imp" -> EncContent(m, ty.e, v)
Enc(m, ty, v) ==
  IF ty.k = "opt" THEN (IF v = <<>> THEN <<>> ELSE Enc(m, ty.e, v[1]))
  ELSE LET id == Ident(ty, v)
       IN EncTlv(id[1], id[2], id[3], EncContent(m, ty, v))
=============================================================================
