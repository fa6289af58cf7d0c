------------------------------ MODULE Samples -------------------------------
(***************************************************************************)
(* Encodings made from a type: one valid element of it, elements that      *)
(* deviate from it in one place (valid or not: the specification judges),  *)
(* and contents of derived containers made of such elements.               *)
(***************************************************************************)
EXTENDS Bytes, Desc

LOCAL L(n) == IF n < 128 THEN <<n>> ELSE IF n < 256 THEN <<129, n>> ELSE <<130, n \div 256, n % 256>>
LOCAL Base128(n) == IF n < 128 THEN <<n>> ELSE IF n < 16384 THEN <<128 + (n \div 128), n % 128>> ELSE <<128 + (n \div 16384), 128 + ((n \div 128) % 128), n % 128>>
IdOctets(cls, cons, no) == IF no < 31 THEN <<64 * cls + 32 * cons + no>> ELSE <<64 * cls + 32 * cons + 31>> \o Base128(no)
Tlv(cls, cons, no, c) == IdOctets(cls, cons, no) \o L(Len(c)) \o c
\* number of identifier octets (of a well-formed element)
LOCAL IdLen(e) == IF e[1] % 32 # 31 THEN 1 ELSE CHOOSE n \in 2..4 : e[n] < 128 /\ \A j \in 2..(n - 1) : e[j] >= 128
LOCAL LenLen1(e, i) == IF e[i] < 128 THEN 1 ELSE 1 + e[i] - 128
LOCAL Body(e) == LET i == IdLen(e) + 1 IN Drop(e, i - 1 + LenLen1(e, i))
LOCAL IsCons(e) == BitOf(e[1], 5) = 1
Retag(cls, no, e) == IdOctets(cls, BitOf(e[1], 5), no) \o Drop(e, IdLen(e))

RECURSIVE Valid(_), FieldValid(_), VariantValid(_, _)
Valid(ty) ==
  CASE ty.k = "int" -> <<2, 1, 5>>
    [] ty.k = "integer" -> <<2, 2, 1, 0>>
    [] ty.k \in {"bool", "boolean"} -> <<1, 1, 255>>
    [] ty.k \in {"octets", "octetsP"} -> <<4, 2, 65, 66>>
    [] ty.k = "str" -> <<ty.t, 1, 65>>
    [] ty.k = "oid" -> <<6, 1, 42>>
    [] ty.k = "null" -> <<5, 0>>
    [] ty.k = "bits" -> <<3, 2, 4, 240>>
    [] ty.k = "enum" -> <<10, 1, 7>>
    [] ty.k = "utctime" -> <<23, 13, 57, 57, 49, 50, 51, 49, 50, 51, 53, 57, 53, 57, 90>>
    [] ty.k = "gentime" -> <<24, 19, 50, 48, 50, 49, 48, 55, 48, 52, 49, 51, 52, 54, 48, 53, 46, 49, 50, 53, 90>>
    [] ty.k = "bmp" -> <<30, 4, 0, 65, 32, 172>>
    [] ty.k = "univ" -> <<28, 8, 0, 0, 0, 65, 0, 1, 246, 0>>
    [] ty.k \in {"real", "f32", "f64"} -> <<9, 3, 128, 1, 5>>
    [] ty.k = "raw" -> Tlv(0, 1, ty.t, <<2, 1, 5, 4, 1, 65>>)
    [] ty.k \in {"any", "header"} -> <<48, 3, 2, 1, 5>>
    [] ty.k = "eoc" -> <<0, 0>>
    [] ty.k = "opt" -> Valid(ty.e)
    [] ty.k = "arr" -> Tlv(0, 1, 16, Concat([i \in 1..ty.n |-> Valid(ty.e)]))
    [] ty.k = "tup" -> Tlv(0, 1, 16, Concat([i \in DOMAIN ty.ts |-> Valid(ty.ts[i])]))
    [] ty.k = "anyseq" -> Tlv(0, 1, 16, <<2, 1, 5, 4, 1, 65>>)
    [] ty.k = "anyset" -> Tlv(0, 1, 17, <<2, 1, 5, 4, 1, 65>>)
    [] ty.k = "list" -> Tlv(0, 1, IF ty.w = "seq" THEN 16 ELSE 17, Valid(ty.e))
    [] ty.k = "exp" -> Tlv(ty.cls, 1, ty.no, Valid(ty.e))
    [] ty.k = "imp" -> Retag(ty.cls, ty.no, Valid(ty.e))
    [] ty.k = "struct" -> Tlv(0, 1, StructNo(ty), Concat([i \in DOMAIN ty.fs |-> FieldValid(ty.fs[i])]))
    [] ty.k = "choice" -> VariantValid(ty, 1)
    [] ty.k = "denum" -> LET v == CHOOSE v \in ty.vals : \A w \in ty.vals : v[1] <= w[1] /\ (v[1] = w[1] => v[2] < w[2] \/ (v[2] = w[2] /\ v[3] < w[3]) \/ (v[2] = w[2] /\ v[3] = w[3] /\ v[4] <= w[4]))
                         IN Tlv(0, 0, 10, IF v[4] < 128 THEN <<v[4]>> ELSE <<0, v[4]>>)
FieldValid(f) == CASE f.o \in {"const", "orig"} -> <<>> [] f.o = "octet" -> <<7>> [] OTHER -> Valid(f.t)
VariantValid(ty, i) ==
  LET e == Valid(ty.vs[i].e) IN
  CASE ty.w = "un" -> e [] ty.w = "exp" -> Tlv(2, 1, ty.vs[i].no, e) [] ty.w = "imp" -> Retag(2, ty.vs[i].no, e)

\* contents that some type does not take
OddContents == {<<>>, <<0>>, <<127>>, <<128>>, <<255>>, <<0, 5>>, <<1, 0, 0>>, <<255, 255>>, <<0, 128>>, <<8, 1>>, <<4, 1, 65>>, <<1, 44>>, <<5, 0>>, <<2, 1, 5>>}
\* deviations of an element
Deviants(e) ==
  LET id == IdLen(e)
      c == Body(e)
      i == Take(e, id)
      flip == <<IF IsCons(e) THEN e[1] - 32 ELSE e[1] + 32>> \o Tail(e)
  IN {<<(e[1] + 64 * k) % 256>> \o Tail(e) : k \in 1..3} \cup {flip}
     \cup {<<(e[1] + 1) % 256>> \o Tail(e), Take(e, Len(e) - 1), Take(e, id + 1), Take(e, id)}
     \cup (IF Len(c) < 128 THEN {i \o <<129, Len(c)>> \o c, i \o <<130, 0, Len(c)>> \o c} ELSE {})
     \cup {i \o <<128>> \o c \o <<0, 0>>, <<flip[1]>> \o Tail(i) \o <<128>> \o e \o <<0, 0>>, <<flip[1]>> \o Tail(i) \o L(Len(e)) \o e}
     \cup {i \o L(Len(x)) \o x : x \in OddContents}
     \cup {i \o L(Len(c) + 2) \o c \o <<5, 0>>}
FewDeviants(e) == {<<(e[1] + 128) % 256>> \o Tail(e), Take(e, Len(e) - 1), <<e[1], 0>>} \cup (IF Len(Body(e)) < 128 THEN {Take(e, IdLen(e)) \o <<129, Len(Body(e))>> \o Body(e)} ELSE {})
TypeDeviants(ty) ==
  LET v == Valid(ty) IN
  Deviants(v) \cup (IF ty.k = "exp" THEN {Tlv(ty.cls, 1, ty.no, x) : x \in FewDeviants(Valid(ty.e)) \cup {Valid(ty.e) \o <<5, 0>>, Valid(ty.e) \o <<0>>, <<>>}} ELSE {})
             \cup (IF ty.k = "list" THEN {Tlv(0, 1, IF ty.w = "seq" THEN 16 ELSE 17, x) : x \in FewDeviants(Valid(ty.e)) \cup {Valid(ty.e) \o Valid(ty.e)}} ELSE {})
             \cup (IF ty.k = "imp" /\ ty.no # 13 THEN {Tlv(0, 1, ty.no, v), Tlv(ty.cls, 1, ty.no, Valid(ty.e))} ELSE {})
FieldDeviants(f) == IF f.o \in {"const", "orig", "octet"} THEN {<<>>, <<0>>} ELSE TypeDeviants(f.t)

\* contents of a container: each field there or not
Presences(ty) == [DOMAIN ty.fs -> {0, 1}]
LOCAL Contained(ty, g) == Concat([i \in DOMAIN ty.fs |-> IF g[i] = 1 THEN FieldValid(ty.fs[i]) ELSE <<>>])
\* ... and one of them deviating, the others as in g
LOCAL WithDeviant(ty, g, i) == {Concat([j \in DOMAIN ty.fs |-> IF j = i THEN x ELSE IF g[j] = 1 THEN FieldValid(ty.fs[j]) ELSE <<>>]) : x \in FieldDeviants(ty.fs[i])}
StructTag(ty) == 32 + StructNo(ty)
StructContents(ty, deep) ==
  {Contained(ty, g) : g \in Presences(ty)}
  \cup UNION {WithDeviant(ty, g, i) : i \in DOMAIN ty.fs, g \in IF deep THEN Presences(ty) ELSE {[j \in DOMAIN ty.fs |-> 1], [j \in DOMAIN ty.fs |-> IF ty.fs[j].o = "req" THEN 1 ELSE 0]}}
StructFrames(ty) ==
  LET all == Contained(ty, [j \in DOMAIN ty.fs |-> 1])
      req == Contained(ty, [j \in DOMAIN ty.fs |-> IF ty.fs[j].o = "req" THEN 1 ELSE 0])
      Framed(b, c) == <<b>> \o L(Len(c)) \o c
  IN UNION {{Framed(b, c) : b \in {16, 17, 48, 49, 112, 113, 176, 240, 50}} \cup {<<StructTag(ty), 128>> \o c \o <<0, 0>>, <<StructTag(ty), 129>> \o <<Len(c) % 256>> \o c, <<StructTag(ty), 128>> \o c \o <<0>>}
            \cup {Framed(StructTag(ty), c \o x) : x \in {<<5, 0>>, <<0>>, <<255>>, <<0, 0>>, <<48, 128, 0, 0>>, <<161, 3, 2, 1, 9>>}} \cup {Framed(StructTag(ty), c) \o <<7>>, Take(Framed(StructTag(ty), c), Len(c) + 1), Take(Framed(StructTag(ty), c), (Len(c) \div 2) + 1)}
            : c \in {all, req}}
     \cup {<<>>, <<StructTag(ty)>>}
\* swapped and repeated fields
LOCAL Swapped(ty) == {Concat([j \in DOMAIN ty.fs |-> FieldValid(ty.fs[IF j = i THEN i + 1 ELSE IF j = i + 1 THEN i ELSE j])]) : i \in 1..(Len(ty.fs) - 1)}
LOCAL Repeated(ty) == {Concat([j \in DOMAIN ty.fs |-> IF j = i THEN FieldValid(ty.fs[j]) \o FieldValid(ty.fs[j]) ELSE FieldValid(ty.fs[j])]) : i \in DOMAIN ty.fs}
StructInputs(ty, deep) == {Tlv(0, 1, StructNo(ty), c) : c \in StructContents(ty, deep) \cup Swapped(ty) \cup Repeated(ty)} \cup StructFrames(ty)

VariantDeviants(ty, i) ==
  LET e == ty.vs[i].e IN
  CASE ty.w = "un" -> TypeDeviants(e)
    [] ty.w = "exp" -> TypeDeviants(TExp(2, ty.vs[i].no, e))
    [] ty.w = "imp" -> TypeDeviants(TImp(2, ty.vs[i].no, e))
ChoiceInputs(ty) ==
  UNION {{VariantValid(ty, i), VariantValid(ty, i) \o <<7>>, Valid(ty.vs[i].e)} \cup VariantDeviants(ty, i)
         \cup {Tlv(c, f, no, Valid(ty.vs[i].e)) : c \in 0..3, f \in 0..1, no \in {ty.vs[j].no : j \in DOMAIN ty.vs} \cup {ty.vs[i].no + 1}}
         \cup {Retag(c, no, Valid(ty.vs[i].e)) : c \in 0..3, no \in {ty.vs[j].no : j \in DOMAIN ty.vs} \cup {ty.vs[i].no + 1}} : i \in DOMAIN ty.vs} \cup {<<>>}
EnumInputs(ty) ==
  LET Minimal(v) == LET k == CHOOSE k \in 1..4 : (k = 4 \/ v[k] # 0) /\ \A j \in 1..(k - 1) : v[j] = 0
                        o == SubSeq(v, k, 4) IN IF o[1] >= 128 THEN <<0>> \o o ELSE o
  IN UNION {{<<b>> \o L(Len(c)) \o c : c \in UNION {{Minimal(v), <<0>> \o Minimal(v), <<0, 0>> \o Minimal(v), <<255>> \o Minimal(v), Minimal(v) \o <<0>>, Drop(Minimal(v), 1)} : v \in ty.vals}} : b \in {10, 42, 2, 74, 138, 202}}
     \cup {<<10, 1, n>> : n \in 0..255} \cup {<<10, 129, 1, 4>>, <<42, 128, 10, 1, 4, 0, 0>>, <<10>>, <<10, 1>>, <<>>}
TypeInputs(ty, deep) ==
  CASE ty.k = "struct" -> StructInputs(ty, deep)
    [] ty.k = "choice" -> ChoiceInputs(ty)
    [] ty.k = "denum" -> EnumInputs(ty)
    [] OTHER -> TypeDeviants(ty) \cup {Valid(ty), Valid(ty) \o <<7>>, <<>>}
=============================================================================
