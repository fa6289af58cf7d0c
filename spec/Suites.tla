------------------------------- MODULE Suites -------------------------------
(***************************************************************************)
(* The inputs explored for each property. A suite is a set of operations,  *)
(* a set of initial inputs, and what may be received after them.           *)
(***************************************************************************)
EXTENDS Bytes, Desc, Samples, Macros

CONSTANTS PROP, TIER, SEED      \* what to explore: property, "quick" or "thorough", seed of the pseudo-random inputs
P == PROP
Quick == TIER = "quick"
QT(a, b) == IF Quick THEN a ELSE b
\* n pseudo-random strings of k octets (a multiplicative congruential generator, seeded)
Lcg(x) == (x * 75 + 74) % 65537
RndSeq(len, salt) ==
  LET r == FoldLeft(LAMBDA a, k : <<Append(a[1], (a[2] \div 64) % 256), Lcg(Lcg(a[2]))>>, << <<>>, Lcg(Lcg(((SEED % 4096) * 7919 + salt * 104 + 1) % 65537)) >>, [k \in 1..len |-> k])
  IN r[1]
Rnd(n, k, salt) == LET r == RndSeq(n * k, salt) IN {SubSeq(r, k * j + 1, k * j + k) : j \in 0..(n - 1)}

Bytes1(S) == {<<b>> : b \in S}
StripZ2(o) == SubSeq(o, CHOOSE k \in 1..(Len(o) + 1) : (k > Len(o) \/ o[k] # 0) /\ \A j \in 1..(k - 1) : o[j] = 0, Len(o))
\* strings over S of length lo..hi
Strings(S, lo, hi) == UNION {[1..k -> S] : k \in lo..hi}
Suite(ops, init, chunks) ==
  [ops |-> ops, init |-> init, chunks |-> chunks, gate |-> TRUE, trail |-> {}, cuts |-> FALSE,
   q |-> {}, lenient |-> FALSE, rt |-> TRUE, emit |-> TRUE]
One(ops, init) == Suite(ops, init, <<>>)

\* operations: every api of A on every type of T
OpsOf(A, T) == SetToSeq({<<a, t>> : a \in A, t \in T})
DecAll == {"pb", "pd", "lb", "ld"}
EncAll == {"eb", "ed"}

(*-------------------------------- building TLVs --------------------------*)
LenOct(n) == IF n < 128 THEN <<n>> ELSE IF n < 256 THEN <<129, n>> ELSE IF n < 65536 THEN <<130, n \div 256, n % 256>> ELSE <<131, n \div 65536, (n \div 256) % 256, n % 256>>
T(b, c) == <<b>> \o LenOct(Len(c)) \o c              \* one identifier octet
I(b, c) == <<b, 128>> \o c \o <<0, 0>>               \* indefinite length
LongLen(b, c, k) == <<b, 128 + k>> \o Reps(0, k - 1) \o <<Len(c)>> \o c
TVs(b, C) == {T(b, c) : c \in C}
Wrong(b) == {b + 64, b + 128, b + 192, b + 1}        \* other class, other tag

(*---------------------------------- P01 ----------------------------------*)
HdrAlpha == {0, 1, 2, 31, 48, 63, 127, 128, 129, 130, 255}
NestChunks == { <<0, 0>>, <<48, 128>>, <<36, 128>>, <<2, 1, 0>>, <<4, 2, 0, 0>>, <<5, 0>>, <<0>>, <<49, 2>>, <<48, 4>>, <<0, 1, 7>>, <<0, 129, 0>>, <<64, 0>>, <<32, 0>>, <<160, 129, 2>> }
P01(all_) ==
 << \* every header over an alphabet of significant octets, octet by octet
    [Suite(<< <<"pb", "any">>, <<"pb", "header">>, <<"ib", "any">>, <<"lb", "any">> >>, {<<>>},
     [k \in 1..QT(5, 6) |-> Bytes1(IF k < 6 THEN HdrAlpha ELSE {0, 31, 128, 255})]) EXCEPT !.trail = {<<0>>, <<255, 0>>}, !.q = {"K9"}],
    \* nested definite and indefinite lengths
    [Suite(<< <<"pb", "any">>, <<"ib", "any">> >>, {<<48, 128>>, <<160, 128>>},
     [k \in 1..QT(4, 5) |-> NestChunks]) EXCEPT !.trail = {<<0, 0>>, <<5>>}],
    \* long form of tags
    [Suite(<< <<"pb", "header">>, <<"pb", "any">> >>, Bytes1({31, 63, 95, 159, 191, 223, 255}),
     [k \in 1..6 |-> Bytes1(IF k < 6 THEN {0, 1, 30, 127, 128, 129, 143, 144, 255} ELSE {0, 127, 128})]) EXCEPT !.q = {"K9"}, !.gate = FALSE,
       !.chunks = [k \in 1..QT(4, 5) |-> Bytes1({0, 30, 127, 128, 129, 143, 144, 255})]],
    [One(<< <<"pb", "header">>, <<"pb", "any">>, <<"lb", "header">> >>,
       {<<c>> \o g \o t \o <<0>> : c \in {31, 63, 159, 255}, g \in Strings({128, 129, 143, 144, 255}, 2, 5), t \in {<<0>>, <<1>>, <<127>>}}) EXCEPT !.trail = {<<1>>}],
    \* length octets, up to 12 of them
    One(<< <<"pb", "header">>, <<"pb", "any">> >>,
       {<<4, 128 + k>> \o Reps(a, k - r) \o Reps(b, r) \o t : k \in 1..12, r \in 0..3, a \in {0, 1, 255}, b \in {0, 1, 2, 128}, t \in {<<>>, <<7>>, <<7, 8, 9>>}} \ {<<>>}),
    [One(<< <<"pb", "header">>, <<"pb", "any">>, <<"pd", "any">>, <<"ib", "any">> >>,
       {<<b>> \o l : b \in 0..255, l \in {<<0>>, <<1, 9>>, <<128, 0, 0>>, <<129, 1, 9>>, <<255>>, <<254>>, <<2, 9>>}}) EXCEPT !.q = {"K9"}],
    One(<< <<"pb", "header">>, <<"pb", "any">>, <<"pd", "any">> >>, {<<48, l, 0, 0>> : l \in 0..255} \cup {<<4, l, 0, 0>> : l \in 0..255}),
    \* long contents
    One(<< <<"pb", "any">>, <<"pd", "any">>, <<"ib", "any">> >>,
       {h \o Reps(5, n) : h \in {<<4, 129, 127>>, <<4, 129, 128>>, <<4, 129, 255>>, <<4, 130, 1, 0>>, <<4, 131, 0, 1, 1>>}, n \in {126, 127, 128, 129, 254, 255, 256, 257, 258}}) >>

(*------------------------------- EMBEDDED PDV ----------------------------*)
PdvTypes == {"pdv"}
PdvInputs ==
  LET val == <<130, 1, 65>>
      desc == {<<>>, <<129, 1, 66>>, <<129, 0>>, <<129, 1, 200>>, <<161, 3, 7, 1, 66>>, <<65, 1, 66>>}
      ids == ChoiceInputs(TPdvId) \cup UNION {{Tlv(2, 1, TPdvId.vs[i].no, c) : c \in StructContents(TPdvId.vs[i].e, FALSE)} : i \in {1, 4}}
  IN TypeInputs(TPdv, QT(FALSE, TRUE)) \cup {T(43, T(160, x) \o val) : x \in ids} \cup {T(43, x \o val) : x \in ids}
     \cup {T(43, T(160, x) \o d \o val) : x \in {VariantValid(TPdvId, i) : i \in 1..6}, d \in desc} \cup {I(43, I(160, x) \o val) : x \in {VariantValid(TPdvId, i) : i \in 1..6}}
PdvSuite(apis) == [One(OpsOf(apis, PdvTypes), PdvInputs) EXCEPT !.q = {"K7"}, !.lenient = TRUE, !.rt = FALSE]

(*---------------------------------- P02 ----------------------------------*)
IndefForms(b, c) == {I(b, c), <<b, 128>> \o T(b - 32, c) \o <<0, 0>>}
Elem == {<<2, 1, 5>>, <<1, 1, 255>>, <<1, 1, 1>>, <<4, 1, 65>>, <<5, 0>>, <<2, 2, 0, 1>>, <<36, 3, 4, 1, 65>>, <<36, 128, 4, 1, 65, 0, 0>>, <<48, 128, 0, 0>>, <<48, 0>>, <<48, 128, 2, 1, 5, 0, 0>>}
Contents2 == {<<>>} \cup Elem \cup {a \o b : a \in Elem, b \in Elem}
StrTags == <<4, 12, 18, 19, 20, 21, 22, 25, 26, 27, 7, 30, 28>>
SegAbc == {<<4, 1, 48>>, <<4, 0>>, <<36, 2, 4, 0>>, <<36, 128, 0, 0>>}
P02(all_) ==
 << [One(OpsOf({"pb", "pd", "lb", "ld"}, Leafs),
       UNION { {I(t + 32, <<>>), I(t + 32, <<4, 1, 48>>), T(t + 32, <<4, 1, 48>>), T(t + 32, <<>>), T(t, <<48>>), T(t, <<>>), <<t, 129, 1, 48>>, <<t, 128, 0, 0>>, T(t, <<1>>), T(t, <<0, 1>>), T(t, <<255, 200>>), T(t, <<255>>)} : t \in {1, 2, 3, 4, 5, 6, 7, 9, 10, 12, 13, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 30} })
       EXCEPT !.q = {"K11"}],
    One(<< <<"pd", "any">>, <<"pb", "any">>, <<"ib", "any">>, <<"id", "any">>, <<"pd", "header">>, <<"pb", "header">>, <<"ld", "header">>, <<"lb", "header">>, <<"ld", "any">>, <<"lb", "any">> >>,
       {<<b, 128>> \o x \o <<0, 0>> : b \in {32, 36, 48, 49, 63, 160, 97, 225}, x \in {<<>>, <<2, 1, 5>>, <<48, 128, 0, 0>>}}
       \cup {T(48, I(48, <<>>)), <<191, 129, 0, 128, 0, 0>>}),
    [One(OpsOf({"pd", "pb"}, {"vec_u8", "vec_bool", "vec_octets", "vec_vec_u8", "vec_any", "seqof_u8", "seqof_octets", "tup1", "tup2", "tup3", "arr2_u8", "anyseq", "seqraw", "opt_vec_u8", "te0_vec_u8", "opt_octets"}),
       {T(48, c) : c \in Contents2} \cup {I(48, c) : c \in Contents2} \cup {T(160, T(48, c)) : c \in Elem} \cup {T(160, I(48, c)) : c \in Elem} \cup {I(160, T(48, c)) : c \in Elem}
       \cup {<<36, 128, 4, 1, 65, 0, 0>>, T(36, <<4, 1, 65>>)}) EXCEPT !.q = {"K7"}],
    [One(OpsOf({"ld", "lb"}, {"vec_u8", "vec_bool", "vec_octets", "vec_vec_u8", "vec_any", "seqof_u8", "seqof_octets", "seqraw", "opt_vec_u8", "te0_vec_u8"}),
       {T(48, c) : c \in Contents2} \cup {I(48, c) : c \in Contents2} \cup {T(160, T(48, c)) : c \in Elem} \cup {T(160, I(48, c)) : c \in Elem} \cup {I(160, T(48, c)) : c \in Elem}) EXCEPT !.q = {"K7"}],
    [One(OpsOf({"pd", "pb", "ld", "lb"}, {"setof_u8", "setof_octets", "btree_u16", "hash_u16", "setraw"}),
       {T(49, c) : c \in Contents2} \cup {I(49, c) : c \in Contents2}) EXCEPT !.lenient = FALSE],
    [One(OpsOf({"pd", "pb"}, {"te0_u8", "te1_octets", "ti1_octets", "ti2_vec_u8", "te0_te1_u8", "te0_ti1_u8", "ai200_octets", "vec_ti1_octets", "opt_te2_u8"}),
       {T(160 + n, x) : n \in 0..2, x \in Elem} \cup {I(160 + n, x) : n \in 0..2, x \in Elem} \cup {T(160, T(161, x)) : x \in Elem} \cup {T(160, I(161, x)) : x \in Elem}
       \cup {T(48, I(161, x)) : x \in Elem} \cup {T(48, T(161, x)) : x \in Elem} \cup {<<127, 129, 72>> \o <<128, 4, 1, 65, 0, 0>>, <<127, 129, 72, 3, 4, 1, 65>>, <<95, 129, 72, 1, 65>>}) EXCEPT !.q = {"K7"}],
    PdvSuite({"pb", "pd", "lb", "ld", "cc"}),
    \* the check of a generic object against the constraints of DER
    [One(OpsOf({"cc"}, Leafs),
       UNION { {I(t + 32, <<>>), I(t + 32, <<4, 1, 48>>), T(t + 32, <<4, 1, 48>>), T(t + 32, <<>>), <<t, 129, 1, 48>>, <<t, 128, 0, 0>>} \cup {T(t, c) : c \in {<<>>} \cup Bytes1(0..255) \cup Strings({0, 1, 7, 48, 127, 128, 192, 255}, 2, 3)} : t \in {1, 2, 3, 4, 5, 6, 7, 9, 10, 12, 13, 16, 17, 18, 19, 20, 21, 22, 25, 26, 27, 28, 30} }
       \cup {T(3, <<u, 165, 2^k>>) : u \in 0..8, k \in 0..7} \cup {T(3, <<u, 0>>) : u \in 0..8} \cup {T(23, <<57, 48, 48, 49, 48, 49, 48, 48, 48, 48, 90>>)}
       \cup {T(24, <<50, 48, 57, 48, 48, 49, 48, 49, 48, 48, 48, 48, 48, 48>> \o f \o z) : f \in {<<>>, <<46, 53>>, <<44, 53>>}, z \in {<<>>, <<90>>, <<43, 48, 49, 48, 48>>}}) EXCEPT !.lenient = TRUE],
    [One(OpsOf({"cc"}, {"vec_u8", "vec_bool", "vec_octets", "vec_vec_u8", "vec_any", "vec_setof_u8", "seqof_u8", "seqof_octets", "seqof_seqof_bool", "setof_u8", "setof_octets", "btree_u16", "hash_u16",
              "opt_u8", "opt_bool", "opt_octets", "opt_vec_u8", "te0_u8", "te1_octets", "te31_bool", "te0_te1_u8", "te0_ti1_u8", "te0_vec_u8", "ti0_u8", "ti1_octets", "ti2_vec_u8", "ti5_utf8", "ae2_u8", "ai2_u8", "pe3_bool", "pi3_bool", "ue17_u8", "ui17_u8"}),
       {T(t, c) : c \in Contents2, t \in {48, 49}} \cup {I(48, c) : c \in Contents2} \cup {T(48, T(48, a) \o T(48, b)) : a \in Elem, b \in Elem}
       \cup {T(160 + n, x) : n \in 0..4, x \in Elem} \cup {I(160 + n, x) : n \in 0..4, x \in Elem} \cup Elem \cup {T(160, T(161, x)) : x \in Elem} \cup {T(160, I(161, x)) : x \in Elem} \cup {T(160, T(48, c)) : c \in Elem}
       \cup {T(128 + n, c) : n \in 0..5, c \in {<<>>, <<1>>, <<0, 1>>, <<255>>, <<0>>}}) EXCEPT !.lenient = TRUE, !.q = {"K7"}] >>

(*---------------------------------- P03 ----------------------------------*)
\* whole encodings of many types, truncated everywhere and extended
Objects ==
  {T(2, <<5>>), T(2, <<0, 200>>), T(1, <<255>>), <<5, 0>>, T(10, <<7>>), T(4, <<1, 2, 3>>), I(36, <<4, 1, 65, 36, 128, 4, 0, 0, 0>>), T(36, <<4, 1, 65, 4, 1, 66>>),
   T(3, <<4, 240>>), I(35, <<3, 2, 0, 9, 3, 2, 3, 8>>), T(6, <<42, 134, 72>>), T(12, <<195, 169>>), T(19, <<65>>), T(30, <<0, 65>>), T(28, <<0, 0, 0, 65>>),
   T(23, <<57, 48, 48, 49, 48, 49, 48, 48, 48, 48, 90>>), T(24, <<50, 48, 57, 48, 48, 49, 48, 49, 48, 48, 48, 48, 48, 48, 46, 53, 90>>), T(9, <<128, 255, 5>>), T(9, <<3, 49, 69, 43, 48>>),
   T(48, <<2, 1, 5, 2, 1, 6>>), I(48, <<2, 1, 5, 2, 1, 6>>), T(48, T(48, <<2, 1, 5>>)), I(48, I(48, I(48, <<>>))), T(49, <<2, 1, 5, 2, 1, 6>>), I(49, <<4, 1, 1>>),
   T(160, <<2, 1, 5>>), I(160, <<2, 1, 5>>), T(161, <<4, 1, 65>>), T(128, <<5>>), T(129, <<65>>), <<191, 31, 3, 1, 1, 255>>, <<191, 130, 44, 2, 5, 0>>, <<159, 129, 128, 0, 0>>,
   T(160, T(161, <<2, 1, 5>>)), T(98, <<2, 1, 5>>), T(66, <<5>>), T(227, <<1, 1, 255>>), T(48, <<1, 1, 255, 5, 0, 48, 3, 2, 1, 5>>), T(48, <<2, 1, 5, 1, 1, 255>>), T(48, <<1, 1, 255>>), T(48, <<2, 5, 1>>),
   T(48, <<4, 129>>), <<4, 130, 0, 3, 1, 2, 3>>, T(4, Reps(7, 130)), <<36, 128, 4, 5, 65>>, T(36, <<4, 5, 65>>), <<48, 130>>}
ModelledConts == {"vec_u8", "vec_octets", "vec_vec_u8", "vec_any", "setof_u8", "arr2_u8", "tup1", "tup2", "tup3", "tup2_opt", "anyseq", "btree_u16"}
ModelledTags == {"te0_u8", "te1_octets", "ti0_u8", "ti1_octets", "te31_bool", "te300_null", "ti16384_null", "te0_te1_u8", "te0_ti1_u8", "ae2_u8", "ai2_u8", "pe3_bool", "vec_te0_u8"}
P03(all_) ==
 << [Suite(OpsOf({"pb", "pd"}, {"any", "header", "octetstring", "u8", "vec_any", "opt_u8", "te0_u8", "bitstring"}) \o << <<"ib", "any">>, <<"lb", "any">>, <<"ld", "any">>, <<"lb", "u8">>, <<"ob", "u8">> >>,
       Objects, << >>) EXCEPT !.cuts = TRUE, !.trail = {<<0>>, <<0, 0>>, <<2, 1>>, <<255, 255, 255>>}, !.q = {"K9", "K7", "K1"}, !.gate = FALSE],
    [Suite(OpsOf({"pb", "lb", "ld"}, Leafs), {x \in Objects : Len(x) < 24}, << >>) EXCEPT !.cuts = TRUE, !.trail = {<<0>>}, !.q = {"K9", "K8", "K11"}, !.gate = FALSE],
    [Suite(OpsOf({"pb", "pd"}, ModelledConts \cup ModelledTags), {x \in Objects : Len(x) < 24}, << >>) EXCEPT !.cuts = TRUE, !.trail = {<<0>>}, !.q = {"K9", "K7"}, !.gate = FALSE],
    [Suite(OpsOf({"lb", "ld"}, {"vec_u8", "vec_octets", "vec_vec_u8", "setof_u8", "btree_u16", "te0_u8", "te1_octets", "ti0_u8", "te0_te1_u8", "ae2_u8", "pe3_bool", "opt_u8", "opt_octets", "opt_vec_u8"}), {x \in Objects : Len(x) < 24}, << >>)
       EXCEPT !.cuts = TRUE, !.trail = {<<0>>}, !.q = {"K9", "K7", "K3"}, !.gate = FALSE],
    \* octet by octet, every decoder waiting until it knows
    [Suite(<< <<"pb", "any">>, <<"pd", "any">>, <<"lb", "octetstring">>, <<"pb", "octetstring">>, <<"pd", "u8">>, <<"lb", "u8">> >>, {<<>>},
       << Bytes1({2, 4, 36, 48, 31}), Bytes1({0, 1, 2, 3, 128, 129, 130}), Bytes1({0, 1, 2, 4, 36, 129}), Bytes1({0, 1, 4, 128}), Bytes1({0, 1, 4}), Bytes1({0, 1, 4}), Bytes1({0, 4}) >>) EXCEPT !.trail = {<<0>>, <<0, 0>>}, !.q = {"K9"}] >>

(*---------------------------------- P04 ----------------------------------*)
\* nesting around every documented limit: 50 levels of objects, 8 within a decoded object, 5 of string segments
\* n levels around x: level k has the identifier id[k mod Len(id)], and is indefinite where form[k mod Len(form)] = 1
Nested(id, form, n) ==
  LET step(x, k) == LET b == id[1 + (k % Len(id))] IN
                    IF form[1 + (k % Len(form))] = 1 THEN b \o <<128>> \o x \o <<0, 0>> ELSE b \o LenOct(Len(x)) \o x
  IN [x \in {<<>>, <<5, 0>>, <<4, 1, 65>>, <<2, 1, 5, 2, 1, 6>>} |-> FoldLeft(step, x, [k \in 1..n |-> k])]
Ranged(f) == {f[x] : x \in DOMAIN f}
Depths == {1, 2, 5, 7, 8, 9, 10, 24, 25, 46, 47, 48, 49, 50, 51, 52, 60, 99, 100, 101}
Levels == {<<<<48>>>>, <<<<36>>>>, <<<<160>>>>, <<<<97>>>>, <<<<225>>>>, <<<<49>>, <<48>>>>, <<<<48>>, <<160>>, <<161>>>>, <<<<191, 31>>>>, <<<<44>>, <<36>>>>, <<<<35>>>>}
Shapes == {<<1>>, <<0>>, <<0, 1>>, <<1, 1, 0>>, <<1, 0, 0>>}
P04(all_) ==
 << [One(<< <<"pb", "any">>, <<"pd", "any">>, <<"lb", "any">>, <<"ib", "any">>, <<"ld", "any">>, <<"ie", "any">>, <<"pb", "seqraw">>, <<"ob", "any">>, <<"pb", "anyseq">>, <<"pb", "vec_any">>, <<"lb", "vec_any">> >>,
      UNION {Ranged(Nested(id, form, n)) : id \in Levels, form \in Shapes, n \in QT(Depths, 1..101)}) EXCEPT !.q = {"K9"}],
    One(<< <<"pb", "any">>, <<"lb", "any">>, <<"ib", "any">> >>, {Concat([k \in 1..n |-> id]) \o t : id \in {<<48, 128>>, <<160, 128>>, <<36, 128>>, <<48, 128, 2, 1, 5>>, <<49, 128, 48, 0>>, <<191, 31, 128>>}, n \in QT(Depths, 1..101), t \in {<<>>, <<0, 0>>, <<2, 1, 5>>, <<48>>}}),
    [One(OpsOf({"pb", "lb", "ta", "pd"}, {"octetstring", "utf8", "bmp", "universal", "string", "printable", "bitstring", "bytes", "str"}),
      UNION {{T(b, x), I(b, x)} : b \in {36, 44, 51, 62, 60, 35}, x \in UNION {Ranged(Nested(<<id>>, form, n)) : id \in {<<36>>, <<35>>}, form \in {<<1>>, <<0>>, <<0, 1>>}, n \in 1..8}}) EXCEPT !.q = {"K8"}],
    [One(OpsOf({"pb", "pd", "lb", "ld"}, {"vec_vec_u8", "te0_te1_u8", "vec_any", "te0_vec_u8"}) \o OpsOf({"pb", "pd"}, {"s_deep", "c_deep", "anyseq", "anyset"}),
      UNION {Ranged(Nested(id, form, n)) : id \in {<<<<48>>>>, <<<<160>>>>, <<<<161>>, <<160>>>>}, form \in Shapes, n \in {1, 2, 3, 46, 47, 48, 49, 50, 51}}) EXCEPT !.q = {"K7"}, !.lenient = TRUE, !.rt = FALSE] >>

(*---------------------------------- P05 ----------------------------------*)
IntTypes == {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"}
IEdge == {0, 1, 127, 128, 129, 254, 255}
\* lengths around every machine size, every significant leading pattern
IntContents ==
  {<<>>} \cup Bytes1(0..255) \cup Strings(IEdge, 2, 3)
  \cup {p \o Reps(f, n) : p \in Strings({0, 1, 127, 128, 255}, 1, 3), f \in {0, 1, 255}, n \in {1, 2, 3, 4, 5, 6, 7, 8, 13, 14, 15, 16, 17}}
IntContentsSmall == Bytes1({0, 1, 127, 128, 255}) \cup Strings({0, 1, 127, 128, 255}, 2, 2) \cup {p \o Reps(f, n) : p \in {<<0>>, <<127>>, <<128>>, <<255>>, <<0, 128>>, <<255, 127>>, <<0, 255>>}, f \in {0, 255}, n \in {1, 2, 3, 6, 7, 14, 15, 16}}
P05(all_) ==
 << One(OpsOf({"pb", "pd"}, IntTypes \cup {"integer"}), TVs(2, IntContents)),
    One(OpsOf({"lb", "ld", "ta", "ob"}, IntTypes \cup {"integer"}), TVs(2, {<<>>} \cup IntContentsSmall)),
    One(OpsOf({"eb", "ed"}, IntTypes), TVs(2, IntContents)),
    One(OpsOf({"pb", "pd", "lb", "ld", "eb", "ed"}, IntTypes), TVs(2, Rnd(QT(60, 600), 2, 2) \cup Rnd(QT(60, 600), 3, 3) \cup Rnd(QT(40, 400), 5, 5) \cup Rnd(QT(40, 400), 9, 9))),
    One(OpsOf({"pb", "pd", "lb", "ld", "ta"}, IntTypes \cup {"integer"}), {T(34, <<2, 1, 5>>), T(34, <<5>>), I(34, <<2, 1, 5>>), T(10, <<5>>), T(34, <<>>), <<2, 129, 1, 5>>, <<2, 130, 0, 1, 200>>}) >>

(*---------------------------------- P06 ----------------------------------*)
P06(all_) ==
 << One(OpsOf({"pb", "pd", "lb", "ld", "eb", "ed"}, {"bool", "boolean"}), TVs(1, {<<>>} \cup Bytes1(0..255) \cup Strings({0, 1, 255}, 2, 3)) \cup {<<1, 129, 1, 255>>, <<33, 1, 255>>, <<33, 128, 1, 1, 255, 0, 0>>, <<33, 3, 1, 1, 255>>}),
    [One(OpsOf({"pb", "pd", "lb", "ld", "eb", "ed", "ta", "ob", "od"}, {"bool", "boolean", "null", "unit", "enumerated"}),
      {T(b, c) : b \in {1, 5, 10, 33, 37, 42, 2, 129}, c \in {<<>>, <<0>>, <<1>>, <<255>>, <<0, 0>>}} \cup {<<5, 129, 0>>, <<5, 128, 0, 0>>, <<37, 128, 0, 0>>, I(33, <<1>>), I(42, <<10, 1, 1>>)}) EXCEPT !.q = {"K11"}],
    [One(OpsOf({"pb", "pd", "lb", "ld", "eb", "ed", "ta"}, {"enumerated"}), TVs(10, IntContents)) EXCEPT !.q = {"K11"}],
    One(<< <<"pb", "eoc">> >>, {<<0, 0>>, <<0, 1, 0>>, <<32, 0>>, <<0, 129, 0>>, <<64, 0>>, <<32, 128, 0, 0>>, <<5, 0>>}),
    One(OpsOf({"pb"}, {"opt_null", "opt_bool", "opt_enum"}), {T(b, c) : b \in {1, 5, 10, 37}, c \in {<<>>, <<0>>, <<1>>, <<255>>, <<0, 0>>}}) >>

(*---------------------------------- P07 ----------------------------------*)
SegChunks4 == { <<0, 0>>, <<36, 128>>, <<36, 4>>, <<4, 2, 1, 2>>, <<4, 0>>, <<4, 1, 3>>, <<3, 2, 0, 1>>, <<132, 1, 9>>, <<36, 0>> }
SegChunks3 == { <<0, 0>>, <<35, 128>>, <<35, 4>>, <<3, 2, 0, 170>>, <<3, 2, 4, 240>>, <<3, 1, 0>>, <<3, 0>>, <<3, 1, 1>>, <<3, 2, 8, 1>>, <<4, 1, 3>>, <<3, 2, 7, 128>> }
RECURSIVE NestDef(_, _, _), NestInd(_, _, _)
NestDef(b, x, n) == IF n = 0 THEN x ELSE T(b, NestDef(b, x, n - 1))
NestInd(b, x, n) == IF n = 0 THEN x ELSE I(b, NestInd(b, x, n - 1))
\* bit strings made by other means than decoding
MadeSuite ==
  LET from == {<<>>} \cup Bytes1({0, 1, 85, 128, 255}) \cup {<<165, 90>>, <<255, 255>>, <<129, 66, 255>>, <<0, 255, 7, 128>>}
  IN One(OpsOf({"bt"}, {"bitstring"}),
       UNION {{<<0, o, a, 0>> : a \in 0..(IF o = <<>> THEN 0 ELSE 7)} \cup {<<how, o, a, b>> : how \in 1..3, a \in 0..(8 * Len(o)), b \in 0..(8 * Len(o))} : o \in from} \ {x \in UNION {{<<how, o, a, b>> : how \in 1..3, a \in 0..(8 * Len(o)), b \in 0..(8 * Len(o))} : o \in from} : x[3] > x[4]})
P07(all_) ==
 << [Suite(<< <<"pb", "octetstring">>, <<"pd", "octetstring">>, <<"pb", "bytes">>, <<"lb", "octetstring">> >>, {<<36, 128>>}, [k \in 1..QT(5, 6) |-> SegChunks4]) EXCEPT !.trail = {<<0>>}],
    [Suite(<< <<"pb", "bitstring">>, <<"pd", "bitstring">>, <<"lb", "bitstring">> >>, {<<35, 128>>}, [k \in 1..QT(4, 5) |-> SegChunks3]) EXCEPT !.q = {"K8"}],
    [Suite(<< <<"pb", "octetstring">>, <<"lb", "octetstring">>, <<"ta", "octetstring">>, <<"eb", "octetstring">> >>, {<<36, n>> : n \in 0..9}, [k \in 1..4 |-> SegChunks4 \cup {<<7>>}]) EXCEPT !.q = {}],
    [Suite(<< <<"pb", "bitstring">>, <<"ta", "bitstring">>, <<"ed", "bitstring">> >>, {<<35, n>> : n \in 0..9}, [k \in 1..3 |-> SegChunks3 \cup {<<7>>}]) EXCEPT !.q = {"K8"}],
    \* nesting limit
    One(OpsOf({"pb", "lb", "ta"}, {"octetstring", "utf8", "bmp", "universal", "string", "printable"}),
      {NestDef(b, x, n) : b \in {36, 44, 51, 62, 60}, n \in 0..8, x \in {<<4, 4, 0, 0, 0, 65>>, <<4, 0>>, <<>>, <<36, 0>>}} \cup {NestInd(b, x, n) : b \in {36, 44, 51, 62, 60}, n \in 0..8, x \in {<<4, 4, 0, 0, 0, 65>>, <<>>}}
      \cup {T(b, NestDef(36, x, n)) : b \in {36, 44, 51, 62, 60}, n \in 0..8, x \in {<<4, 4, 0, 0, 0, 65>>, <<4, 0>>, <<>>}} \cup {I(b, NestInd(36, x, n)) : b \in {44, 60, 62}, n \in 0..7, x \in {<<4, 4, 0, 0, 0, 65>>, <<>>}}),
    One(OpsOf({"pb", "lb"}, {"bitstring"}), {NestDef(35, x, n) : n \in 0..8, x \in {<<3, 2, 4, 240>>, <<3, 1, 0>>, <<>>}} \cup {NestInd(35, x, n) : n \in 0..8, x \in {<<3, 2, 4, 240>>, <<>>}}),
    \* bit strings: unused bits against every last octet
    One(OpsOf({"pb", "pd", "lb", "ld", "eb", "ed"}, {"bitstring"}), TVs(3, {<<>>} \cup {<<u>> : u \in {0, 1, 7, 8, 255}} \cup {<<u, b>> : u \in 0..9, b \in 0..255} \cup {<<u, 165, b>> : u \in 0..8, b \in {0, 1, 2, 4, 8, 16, 32, 64, 128, 255, 240}})),
    MadeSuite,
    One(OpsOf({"pb", "pd", "lb", "ld", "eb", "ed"}, {"octetstring", "bytes"}), TVs(4, {<<>>} \cup Bytes1(0..255) \cup Strings({0, 255}, 2, 4)) \cup {T(4, Reps(9, n)) : n \in {126, 127, 128, 129, 255, 256, 257}} \cup {T(36, T(4, Reps(9, n))) : n \in {127, 128, 256}}) >>

(*---------------------------------- P08 ----------------------------------*)
OidBytes == {0, 1, 39, 40, 42, 79, 80, 119, 127, 128, 129, 131, 255}
W0 == Reps(0, 8)
W(n) == Reps(0, 5) \o <<n \div 65536, (n \div 256) % 256, n % 256>>
Words == {W(0), W(1), W(39), W(40), W(127), W(128), W(129), W(16383), W(16384), W(2097151), W(2097152), Reps(255, 8), <<127>> \o Reps(255, 7), <<128>> \o Reps(0, 7), <<1>> \o Reps(0, 7), <<0, 255>> \o Reps(255, 6), <<0, 0, 0, 7, 255, 255, 255, 255>>, <<0, 0, 0, 8, 0, 0, 0, 0>>, <<0, 0, 0, 0, 255, 255, 255, 255>>, <<0, 0, 0, 0, 16, 0, 0, 0>>, <<0, 0, 0, 0, 15, 255, 255, 255>>}
OidContents == {c \in {<<>>} \cup Strings(OidBytes, 1, QT(3, 4)) \cup {<<42>> \o Reps(255, n) \o <<t>> : n \in 0..11, t \in {0, 127}} \cup {<<42, a>> \o Reps(255, n) \o <<127>> : a \in {129, 130, 131}, n \in 7..9}
                   \cup {<<42, 128>> \o Reps(128, n) \o <<1>> : n \in 0..9} : c = <<>> \/ c[1] < 120 \/ c[Len(c)] >= 128}
RelContents == {<<>>} \cup Strings({0, 1, 80, 127, 128, 129, 255}, 1, 3) \cup {Reps(255, n) \o <<127>> : n \in 7..10} \cup {<<129>> \o Reps(255, 8) \o <<127>>, <<129>> \o Reps(128, 8) \o <<0>>, <<130>> \o Reps(128, 8) \o <<0>>, <<255>> \o Reps(128, 8) \o <<0>>}
P08(all_) ==
 << One(OpsOf({"pb", "pd", "lb", "ld", "eb", "ed", "ta"}, {"oid"}), TVs(6, OidContents) \cup TVs(13, RelContents)),
    One(OpsOf({"pb", "pd", "lb", "ld", "ob"}, {"oid"}), {T(38, <<42>>), T(45, <<42>>), I(38, <<6, 1, 42>>), T(38, <<6, 1, 42>>), T(5, <<42>>), T(6, <<42, 134, 72, 134, 247, 13, 1, 1, 11>>)}),
    [One(OpsOf({"oc"}, {"oid"}), {<<1, a>> : a \in {<<>>} \cup Strings(Words, 1, 2)} \cup {<<0, a>> : a \in {<<>>} \cup Strings(Words, 1, 2)}
       \cup {<<0, <<W(x), W(y)>> \o a>> : x \in 0..2, y \in {0, 1, 2, 20, 38, 39, 40}, a \in {<<>>} \cup Strings(Words, 1, QT(1, 2))}) EXCEPT !.q = {"K13"}],
    [One(OpsOf({"oa"}, {"oid"}), TVs(6, {c \in OidContents : c # <<>> /\ c[Len(c)] < 128}) \cup TVs(13, {c \in RelContents : c # <<>> /\ c[Len(c)] < 128})) EXCEPT !.q = {"K13"}] >>

(*---------------------------------- P09 ----------------------------------*)
Ascii == {"numeric", "printable", "visible", "ia5", "general", "graphic", "teletex", "videotex", "objdesc", "utf8", "str", "string"}
TagOfStr(t) == CASE t = "numeric" -> 18 [] t = "printable" -> 19 [] t = "visible" -> 26 [] t = "ia5" -> 22 [] t = "general" -> 27 [] t = "graphic" -> 25
                 [] t = "teletex" -> 20 [] t = "videotex" -> 21 [] t = "objdesc" -> 7 [] t \in {"utf8", "str", "string"} -> 12 [] t = "bmp" -> 30 [] t = "universal" -> 28
U8Alpha == {0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 236, 237, 238, 239, 240, 241, 243, 244, 245, 255}
StrSuite(t) ==
  << One(<< <<"pb", t>>, <<"pd", t>>, <<"lb", t>>, <<"ld", t>>, <<"eb", t>>, <<"ed", t>> >>,
       TVs(TagOfStr(t), {<<>>} \cup Bytes1(0..255) \cup {<<65, b>> : b \in 0..255} \cup {<<b, 48>> : b \in 0..255})),
     One(<< <<"pb", t>>, <<"lb", t>>, <<"pd", t>>, <<"ed", t>> >>,
       {T(TagOfStr(t) + 32, x) : x \in {<<>>, <<4, 1, 48>>, <<4, 1, 48, 4, 2, 49, 50>>, <<12, 1, 48>>, <<4, 1, 200>>, <<4, 0>>, T(36, <<4, 1, 48>>), I(36, <<4, 1, 48>>), T(TagOfStr(t), <<48>>), <<4, 2, 48>>}}
       \cup {I(TagOfStr(t) + 32, x) : x \in {<<>>, <<4, 1, 48>>, <<4, 1, 48, 4, 2, 49, 50>>, <<4, 1, 195, 4, 1, 169>>, T(36, <<4, 1, 48>>), I(36, <<4, 1, 48>>)}}) >>
Utf16Alpha == {0, 65, 215, 216, 217, 219, 220, 223, 224, 255}
P09(all_) ==
 Concat([k \in 1..12 |-> StrSuite((<<"numeric", "printable", "visible", "ia5", "general", "graphic", "teletex", "videotex", "objdesc", "utf8", "str", "string">>)[k])])
 \o << One(<< <<"pb", "utf8">>, <<"pd", "str">>, <<"lb", "string">>, <<"eb", "utf8">> >>, TVs(12, Strings(U8Alpha, 2, 3) \cup {<<a, b, c, d>> : a \in {239, 240, 241, 243, 244, 245}, b \in {127, 128, 143, 144, 191, 192}, c \in {127, 128, 191, 192}, d \in {127, 128, 191, 192}})),
    One(<< <<"pb", "bmp">>, <<"pd", "bmp">>, <<"lb", "bmp">>, <<"ld", "bmp">>, <<"eb", "bmp">>, <<"ed", "bmp">> >>,
      TVs(30, {<<>>} \cup Bytes1({0, 65}) \cup Strings(Utf16Alpha, 2, 3) \cup {<<a, b, c, d>> : a \in {0, 215, 216, 219, 220, 224}, b \in {0, 255}, c \in {0, 216, 219, 220, 223, 224}, d \in {0, 255}} \cup {<<a, 0>> : a \in 0..255})
      \cup {T(62, x) : x \in {<<4, 2, 0, 65>>, <<4, 1, 0, 4, 1, 65>>, <<>>, <<4, 1, 0>>, I(36, <<4, 2, 0, 65>>)}} \cup {I(62, <<4, 2, 0, 65>>)}),
    One(<< <<"pb", "universal">>, <<"pd", "universal">>, <<"lb", "universal">>, <<"ld", "universal">>, <<"eb", "universal">>, <<"ed", "universal">> >>,
      TVs(28, {<<>>} \cup Strings({0, 1}, 1, 3) \cup {<<a, b, c, d>> : a \in {0, 1, 128}, b \in {0, 1, 16, 17, 255}, c \in {0, 215, 216, 223, 224, 255}, d \in {0, 65, 255}} \cup {Reps(0, n) : n \in 4..9})
      \cup {T(60, x) : x \in {<<4, 4, 0, 0, 0, 65>>, <<4, 2, 0, 0, 4, 2, 0, 65>>, <<>>, <<4, 2, 0, 0>>}} \cup {I(60, <<4, 4, 0, 0, 0, 65>>)}) >>

(*---------------------------------- P10 ----------------------------------*)
Zero == 48
D2(n) == <<48 + (n \div 10), 48 + (n % 10)>>
Y4(n) == D2(n \div 100) \o D2(n % 100)
Zones == { <<>>, <<90>>, <<43, 48, 49, 51, 48>>, <<45, 48, 49, 51, 48>>, <<45, 48, 48, 51, 48>>, <<43, 48, 48, 48, 48>>, <<43, 50, 51, 53, 57>>, <<90, 90>>, <<43, 48, 49>>, <<43, 48, 49, 51>>, <<122>>, <<43, 48, 49, 51, 48, 90>>, <<45, 49, 50, 48, 48>>, <<45>>, <<43, 48, 65, 48, 48>> }
Fracs == { <<>>, <<46, 53>>, <<44, 53>>, <<46, 48, 53>>, <<46, 57, 57, 57>>, <<46, 49, 50, 51, 52>>, <<46>>, <<44>>, <<46, 48, 48, 48>>, <<46, 49, 48, 48>>, <<46, 65>>, <<46, 49, 65>>, <<46, 48>> }
Utc(y, mo, d, h, mi) == D2(y) \o D2(mo) \o D2(d) \o D2(h) \o D2(mi)
Gen4(y, mo, d, h, mi) == Y4(y) \o D2(mo) \o D2(d) \o D2(h) \o D2(mi)
UtcBases == {Utc(y, mo, d, h, mi) : y \in {0, 49, 50, 99}, mo \in {1, 12}, d \in {1, 31}, h \in {0, 23}, mi \in {0, 59}}
TimeOps(t) == << <<"pb", t>>, <<"pd", t>>, <<"lb", t>>, <<"ld", t>>, <<"eb", t>>, <<"ed", t>>, <<"ta", t>> >>
EditAt(b, k, c) == [b EXCEPT ![k] = c]
P10(all_) ==
 << One(TimeOps("utctime"), TVs(23, {b \o s \o z : b \in UtcBases, s \in {<<>>, D2(0), D2(59)}, z \in {<<90>>, <<43, 48, 49, 51, 48>>, <<45, 48, 48, 51, 48>>, <<>>}})),
    One(TimeOps("utctime"), TVs(23, {Utc(7, mo, d, h, mi) \o D2(s) \o <<90>> : mo \in {0, 1, 2, 9, 10, 12, 13, 20}, d \in {0, 1, 28, 31, 32}, h \in {0, 9, 24}, mi \in {0, 60}, s \in {0, 60}})),
    One(TimeOps("utctime"), TVs(23, {Utc(21, 7, 4, 13, 46) \o s \o f \o z : s \in {<<>>, D2(5), <<53>>}, f \in {<<>>, <<46, 53>>}, z \in Zones})),
    One(TimeOps("utctime"), TVs(23, {EditAt(Utc(21, 7, 4, 13, 46) \o D2(5) \o <<90>>, k, c) : k \in 1..13, c \in {0, 32, 47, 48, 49, 53, 57, 58, 65, 90, 43, 45, 127, 200}}
       \cup {Take(Utc(21, 7, 4, 13, 46) \o D2(5) \o <<90>>, k) : k \in 0..12})),
    One(TimeOps("gentime"), TVs(24, {Gen4(y, mo, d, h, mi) \o s \o z : y \in {0, 99, 1999, 2000, 9999}, mo \in {1, 12}, d \in {1, 31}, h \in {0, 23}, mi \in {0, 59}, s \in {<<>>, D2(0), D2(59)}, z \in {<<90>>, <<43, 48, 49, 51, 48>>, <<>>}})),
    One(TimeOps("gentime"), TVs(24, {Gen4(2007, mo, d, h, mi) \o D2(s) \o <<90>> : mo \in {0, 1, 2, 10, 12, 13}, d \in {0, 1, 31, 32}, h \in {0, 24}, mi \in {0, 60}, s \in {0, 60}})),
    One(TimeOps("gentime"), TVs(24, {Gen4(2021, 7, 4, 13, 46) \o s \o f \o z : s \in {<<>>, D2(5), <<53>>}, f \in Fracs, z \in Zones})),
    One(TimeOps("gentime"), TVs(24, {EditAt(Gen4(2021, 7, 4, 13, 46) \o D2(5) \o <<46, 49, 50, 53, 90>>, k, c) : k \in 1..19, c \in {0, 32, 44, 46, 47, 48, 49, 53, 57, 58, 65, 90, 43, 45, 127, 200}}
       \cup {Take(Gen4(2021, 7, 4, 13, 46) \o D2(5) \o <<46, 49, 50, 53, 90>>, k) : k \in 0..18})),
    One(TimeOps("gentime"), TVs(24, {Gen4(2021, 7, 4, 13, 46) \o D2(5) \o <<46>> \o D2(k \div 10) \o <<48 + (k % 10)>> \o <<90>> : k \in QT({0, 1, 10, 100, 120, 123, 500, 990, 999}, 0..999)})),
    One(TimeOps("utctime") \o TimeOps("gentime"), {T(b, Utc(21, 7, 4, 13, 46) \o <<90>>) : b \in {55, 24, 56, 87}} \cup {I(55, T(23, Utc(21, 7, 4, 13, 46) \o <<90>>)), T(56, T(24, Gen4(2021, 7, 4, 13, 46) \o <<90>>))}) >>

(*---------------------------------- P11 ----------------------------------*)
Firsts == {128 + 64 * sg + 16 * b + 4 * sf + l : sg \in 0..1, b \in 0..3, sf \in 0..3, l \in 0..3}
Text(x) == x
Nums == { <<49>>, <<48>>, <<45, 49>>, <<43, 49, 48>>, <<49, 50, 51, 48, 48>>, <<48, 49>>, <<>>, <<45>>, <<49, 46, 53>>, <<49, 46>>, <<46, 53>>, <<46>>, <<49, 69, 50>>, <<49, 101, 45, 50>>, <<49, 69>>, <<49, 69, 43>>, <<49, 50, 69, 43, 48>>, <<45, 51, 46, 50, 53, 69, 45, 49>>,
          <<105, 110, 102>>, <<78, 97, 78>>, <<32, 49>>, <<49, 32>>, <<49, 44, 53>>, <<48, 46, 48>>, <<49, 95, 48>>, <<43, 45, 49>>, <<49, 46, 50, 46, 51>>, <<49, 69, 49, 69, 49>>, <<49, 48, 48, 46, 48, 48>>, <<49, 69, 49, 46, 53>>, <<200>>, <<57, 57, 57, 57, 57>>, <<45, 48>>, <<48, 46, 49>>, <<51, 46, 49, 52>> }
P11(all_) ==
 << One(OpsOf({"pb", "pd", "lb", "ld", "eb", "ed"}, {"real"}), TVs(9, {<<f, e, m>> : f \in Firsts, e \in {0, 1, 3, 127, 128, 255}, m \in {0, 1, 2, 8, 16, 96, 255}})),
    One(OpsOf({"pb", "pd", "eb", "ed"}, {"real"}), TVs(9, {<<f>> \o e \o m : f \in {128, 129, 130, 131, 144, 145, 146, 147, 160, 161, 162, 163, 193, 135, 155, 175},
         e \in {<<1>>, <<2, 255>>, <<255, 0>>, <<127, 255>>, <<128, 0>>, <<2, 1, 0>>, <<127, 255, 255>>, <<3, 128, 0, 1>>, <<4, 127, 255, 255, 255>>, <<4, 128, 0, 0, 0>>, <<4, 42, 170, 170, 170>>, <<4, 42, 170, 170, 171>>, <<4, 31, 255, 255, 255>>, <<4, 32, 0, 0, 0>>, <<4, 224, 0, 0, 0>>, <<4, 223, 255, 255, 255>>, <<4, 213, 85, 85, 86>>, <<4, 213, 85, 85, 85>>, <<5, 0, 0, 0, 0, 1>>, <<0>>, <<255>>},
         m \in {<<>>, <<1>>, <<3, 0>>, <<1, 0, 0, 0, 0, 0, 0, 0>>, <<0, 31, 255, 255, 255, 255, 255, 255>>, <<255, 255, 255, 255, 255, 255, 255, 255>>, <<128, 0, 0, 0, 0, 0, 4, 0>>, <<128, 0, 0, 0, 0, 0, 4, 1>>, <<128, 0, 0, 0, 0, 0, 12, 0>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0>>}})),
    One(OpsOf({"pb", "pd", "lb", "ld", "eb", "ed"}, {"real"}), TVs(9, {<<>>} \cup Bytes1(0..255) \cup {<<b, 1>> : b \in 0..255} \cup {<<b, 49, 46, 53>> : b \in 0..63} \cup {<<64, 0>>, <<65, 65>>}) \cup {T(41, <<128, 0, 1>>), I(41, <<9, 3, 128, 0, 1>>), T(73, <<>>)}),
    One(OpsOf({"pb", "pd", "lb", "eb", "ed"}, {"real"}), TVs(9, {<<n>> \o x : n \in 0..5, x \in Nums})),
    One(OpsOf({"pb", "pd", "lb", "ld"}, {"f64", "f32"}), TVs(9, {<<>>, <<64>>, <<65>>, <<66>>, <<67>>} \cup {<<f>> \o e \o m : f \in {129, 193, 145, 161}, e \in {<<0, 0>>, <<0, 10>>, <<255, 246>>, <<3, 255>>, <<4, 0>>, <<252, 2>>, <<252, 1>>, <<252, 0>>, <<251, 206>>, <<251, 205>>, <<251, 204>>, <<251, 150>>, <<0, 127>>, <<0, 128>>, <<255, 130>>, <<255, 129>>, <<255, 106>>, <<255, 107>>, <<255, 108>>, <<0, 100>>, <<16, 0>>, <<240, 0>>},
         m \in {<<0>>, <<1>>, <<3>>, <<255>>, <<255, 255, 255>>, <<1, 0, 0, 1>>, <<1, 0, 0, 3>>, <<31, 255, 255, 255, 255, 255, 255>>, <<63, 255, 255, 255, 255, 255, 255>>, <<128, 0, 0, 0, 0, 0, 4, 0>>}})),
    One(OpsOf({"pb", "eb", "ed"}, {"real"}), TVs(9, {<<f>> \o x : f \in QT({128, 193, 161}, Firsts), x \in Rnd(QT(150, 1500), 3, 3) \cup Rnd(QT(50, 1000), 6, 6)})) >>

(*---------------------------------- P12, P13 ------------------------------*)
EncTypes == {"u8", "u32", "i16", "i64", "u128", "bool", "boolean", "null", "enumerated", "octetstring", "bitstring", "oid", "utf8", "printable", "bmp", "universal", "string", "str", "bytes", "utctime", "gentime", "real", "seqraw", "setraw", "any", "integer"}
Long(b, n) == T(b, Reps(65, n))
Lens == {0, 1, 2, 125, 126, 127, 128, 129, 253, 254, 255, 256, 257}
Encodings1 == {x \in Objects : Len(x) < 40}
U8s(n) == Concat([k \in 1..n |-> <<2, 1, k % 128>>])
P12(all_) ==
 << [One(OpsOf({"eb", "ed"}, EncTypes), Encodings1 \cup TVs(2, IntContentsSmall) \cup TVs(10, IntContentsSmall)) EXCEPT !.rt = FALSE],
    One(OpsOf({"eb", "ed"}, {"u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "enumerated", "bool", "boolean", "null"}), TVs(2, IntContents) \cup TVs(10, IntContentsSmall) \cup TVs(1, Bytes1(0..255)) \cup {<<5, 0>>}),
    One(OpsOf({"eb", "ed"}, {"octetstring", "bytes", "utf8", "string", "str", "ia5", "any"}), {Long(b, n) : b \in {4, 12, 22}, n \in QT({0, 1, 127, 128, 256}, Lens)}),
    MadeSuite,
    One(OpsOf({"eb", "ed"}, {"bitstring"}), TVs(3, {<<u, 165, b>> : u \in 0..7, b \in {0, 85, 128, 255}} \cup {<<0>>} \cup {<<u, b>> : u \in 0..7, b \in 0..255})),
    One(OpsOf({"eb", "ed"}, {"vec_u8", "seqof_u8", "vec_vec_u8", "vec_octets", "seqof_octets", "seqof_seqof_bool", "arr2_u8", "anyseq", "arr0_bool"}),
       {T(48, x) : x \in Contents2} \cup {I(48, x) : x \in Contents2} \cup {T(48, U8s(n)) : n \in {0, 1, 2, 42, 43, 86}} \cup {T(48, Long(4, n)) : n \in {124, 125, 126, 127, 128}} \cup {T(48, T(48, <<1, 1, 255>>) \o <<48, 0>>)}),
    [One(OpsOf({"eb", "ed"}, {"setof_u8", "setof_octets", "btree_u16", "anyset", "hash_u16"}),
       {T(49, x) : x \in Contents2} \cup {T(49, U8s(n)) : n \in {0, 1, 2, 42, 43, 86}} \cup {T(49, x) : x \in {a \o b \o c : a \in {<<2, 1, 9>>, <<2, 2, 0, 255>>}, b \in {<<2, 1, 5>>, <<2, 2, 1, 0>>}, c \in {<<2, 1, 7>>, <<2, 1, 9>>}}}
       \cup {T(49, a \o b \o c) : a \in {<<4, 1, 9>>, <<4, 2, 1, 9>>}, b \in {<<4, 0>>, <<4, 1, 200>>, <<4, 1, 8>>}, c \in {<<4, 1, 7>>, <<4, 2, 0, 0>>}}) EXCEPT !.q = {"K6"}],
    [One(OpsOf({"eb", "ed"}, {"te0_u8", "te1_octets", "te31_bool", "te300_null", "ti0_u8", "ti1_octets", "ti31_bool", "ti2_vec_u8", "ti16384_null", "ti5_utf8", "te0_te1_u8", "te0_ti1_u8", "ti3_ti4_bool", "ae2_u8", "ai2_u8", "ai200_octets", "pe3_bool", "pi3_bool", "vec_te0_u8", "vec_ti1_octets", "te0_vec_u8", "ue17_u8", "ui17_u8"}),
       {T(160 + n, x) : n \in 0..5, x \in Elem} \cup {T(128 + n, x) : n \in 0..5, x \in {<<>>, <<5>>, <<65, 66>>}} \cup {T(160, T(160 + n, x)) : n \in 0..1, x \in Elem} \cup {T(160, T(129, <<5>>)), T(162, <<2, 1, 5, 2, 1, 6>>)}
       \cup {T(48, T(160, <<2, 1, 5>>) \o T(160, <<2, 1, 6>>)), T(48, T(129, <<65>>) \o T(129, <<>>)), T(160, T(48, <<2, 1, 5>>))}
       \cup {<<191, 31, 3, 1, 1, 255>>, <<159, 31, 1, 1>>, <<191, 130, 44, 2, 5, 0>>, <<159, 129, 128, 0, 0>>, T(98, <<2, 1, 5>>), T(66, <<5>>), <<95, 129, 72, 2, 65, 66>>, T(227, <<1, 1, 255>>), T(195, <<255>>), T(49, <<2, 1, 5>>), T(17, <<5>>)}
       \cup {T(161, Long(4, n)) : n \in {125, 126, 127, 128, 254, 256}} \cup {Long(129, n) : n \in {127, 128, 256}} \cup {<<95, 129, 72>> \o LenOct(n) \o Reps(1, n) : n \in {127, 128, 256}}) EXCEPT !.q = {"K7"}],
    One(OpsOf({"eb", "ed"}, {"opt_u8", "opt_bool", "opt_octets", "opt_null", "opt_vec_u8", "opt_oid", "opt_enum", "opt_utf8"}), {<<>>} \cup Elem \cup {T(6, <<42>>), T(10, <<5>>), T(12, <<65>>)}),
    One(OpsOf({"eb", "ed"}, {"any"}), {<<b>> \o LenOct(Len(x)) \o x : b \in {0, 2, 48, 95 - 1, 160, 255 - 32 - 1, 222}, x \in {<<>>, <<1>>, <<2, 1, 5>>}} \cup {<<191, 129, 0, 1, 5>>, <<63, 31, 1, 5>>, <<31, 130, 128, 0, 0>>, I(48, <<2, 1, 5>>), <<4, 131, 0, 0, 1, 5>>}) >>

(*---------------------------------- P15 ----------------------------------*)
TagsAll == DOMAIN TagTypes
LegacyTags == TagsAll \ {"ti0_te1_u8", "ti3_ti4_bool", "vec_te0_u8", "vec_ti1_octets"}
\* outer identifiers around every declared one: class, form and number varied
Outers == {<<64 * c + 32 * f + n>> : c \in 0..3, f \in 0..1, n \in {0, 1, 2, 3, 5, 17}} \cup {<<64 * c + 32 * f + 31>> \o g : c \in 0..3, f \in 0..1, g \in {<<31>>, <<30>>, <<130, 44>>, <<129, 72>>, <<129, 128, 0>>, <<128, 31>>}}
TagInners == {<<>>, <<5>>, <<255>>, <<2, 1, 5>>, <<1, 1, 255>>, <<1, 1, 66>>, <<5, 0>>, <<4, 1, 65>>, <<65, 66>>, <<2, 1, 5, 2, 1, 6>>, <<2, 2, 0, 5>>, <<129, 1, 5>>, <<161, 3, 2, 1, 5>>, <<2, 1>>, <<48, 3, 2, 1, 5>>, <<0, 5>>, <<36, 3, 4, 1, 65>>}
TagInputs == {o \o LenOct(Len(x)) \o x : o \in Outers, x \in TagInners} \cup {o \o <<128>> \o x \o <<0, 0>> : o \in {y \in Outers : (y[1] \div 32) % 2 = 1}, x \in TagInners}
P15(all_) ==
 << PdvSuite({"pb", "lb", "ta"}),
    [One(OpsOf({"pb", "pd"}, TagsAll), TagInputs) EXCEPT !.q = {"K7", "K10"}, !.lenient = TRUE],
    [One(OpsOf({"lb", "ld"}, LegacyTags), TagInputs) EXCEPT !.q = {"K7", "K3"}, !.lenient = TRUE],
    [One(OpsOf({"eb", "ed"}, TagsAll), TagInputs) EXCEPT !.q = {"K7", "K10"}, !.rt = FALSE],
    [One(OpsOf({"pb", "pd"}, {"vec_te0_u8", "vec_ti1_octets", "te0_vec_u8"}), {T(48, a \o b) : a \in {T(160, x) : x \in TagInners} \cup {T(129, x) : x \in {<<>>, <<65>>}} \cup {T(161, x) : x \in TagInners}, b \in {<<>>, T(160, <<2, 1, 7>>), T(129, <<66>>), T(96, <<2, 1, 7>>)}} \cup {T(160, T(48, x)) : x \in TagInners}) EXCEPT !.q = {"K7"}],
    [One(OpsOf({"pb", "pd", "eb", "ed"}, {"te0_te1_u8", "te0_ti1_u8", "ti0_te1_u8", "ti3_ti4_bool"}), {T(a, T(b, x)) : a \in {160, 128, 32, 161}, b \in {161, 129, 160, 97, 33}, x \in TagInners} \cup {T(a, x) : a \in {131, 132, 163, 67}, x \in {<<>>, <<0>>, <<255>>, <<7>>, <<0, 0>>}}) EXCEPT !.q = {"K7", "K10"}, !.rt = FALSE] >>

(*---------------------------------- P16 ----------------------------------*)
OptsAll == DOMAIN OptTypes
OptInputs == {<<>>} \cup {<<b>> \o LenOct(Len(x)) \o x : b \in {0, 1, 2, 4, 5, 6, 10, 12, 13, 16, 48, 97, 65, 33, 34, 36, 66, 98, 129, 130, 161, 162, 225, 226}, x \in {<<>>, <<5>>, <<255>>, <<2, 1, 5>>, <<1, 1, 255>>, <<0, 200>>, <<4, 1, 65>>, <<2, 2, 5>>}}
             \cup {<<2>>, <<2, 1>>, <<2, 3, 1, 1>>, <<1, 1>>, <<48, 128, 0, 0>>, <<48, 128>>, <<36, 128, 4, 1, 65, 0, 0>>, <<3>>, <<31>>, <<2, 128>>, <<2, 255>>, <<128, 255>>, <<191, 2, 0>>, <<162, 128, 2, 1, 5, 0, 0>>, <<4, 129>>, <<4, 130, 1>>, <<162, 3, 2, 1>>, <<162, 3, 1, 1, 5>>}
P16(all_) ==
 << [Suite(OpsOf({"pb", "pd"}, OptsAll), OptInputs, <<>>) EXCEPT !.trail = {<<2, 1, 5>>, <<0>>}, !.q = {"K1", "K7", "K9"}],
    [Suite(OpsOf({"lb", "ld"}, OptsAll \ {"opt_te2_u8", "opt_ti1_bool", "opt_ae1_bool"}), OptInputs, <<>>) EXCEPT !.trail = {<<2, 1, 5>>}, !.q = {"K9", "K11"}, !.lenient = TRUE],
    [Suite(OpsOf({"ob", "od"}, {"u8", "bool", "octetstring", "null", "vec_u8", "oid", "enumerated", "utf8", "te0_u8", "ti0_u8", "any", "tup2", "integer", "bitstring", "utctime", "gentime", "seqraw", "real"}), OptInputs, <<>>) EXCEPT !.trail = {<<2, 1, 5>>}, !.q = {"K1", "K7", "K9"}],
    [One(OpsOf({"pb", "pd"}, {"tup2_opt", "tup3_opt"}), {T(48, x) : x \in {<<>>, <<2, 1, 5>>, <<1, 1, 255>>, <<2, 1, 5, 1, 1, 255>>, <<1, 1, 255, 2, 1, 5>>, <<5, 0>>, <<1, 1, 0, 5, 0>>, <<48, 3, 2, 1, 7>>, <<5, 0, 48, 0>>, <<1, 1, 255, 5, 0, 48, 3, 2, 1, 7>>, <<2, 2, 200, 5, 1, 1, 255>>, <<2, 1, 200, 1, 1, 255>>, <<1, 1, 255, 1, 1, 255>>, <<34, 0, 1, 1, 255>>, <<2, 5, 1>>, <<1>>}}) EXCEPT !.q = {"K7"}],
    One(OpsOf({"eb", "ed"}, OptsAll \ {"opt_te2_u8", "opt_ti1_bool", "opt_ae1_bool"}), OptInputs) >>

(*---------------------------------- P17 ----------------------------------*)
ElemChunks == {<<2, 1, 5>>, <<2, 2, 1, 0>>, <<2, 1, 255>>, <<1, 1, 255>>, <<4, 1, 65>>, <<2, 0>>, <<2, 2, 5>>, <<0, 0>>, <<48, 3, 2, 1, 7>>, <<48, 128, 0, 0>>, <<36, 128, 4, 1, 66, 0, 0>>, <<2>>, <<130, 1, 5>>, <<5, 0>>}
Conts == {"vec_u8", "vec_bool", "vec_octets", "vec_vec_u8", "vec_any", "seqof_u8", "seqof_octets", "arr2_u8", "arr0_bool", "anyseq", "seqraw", "tup1", "tup2", "tup3"}
Bodies == {<<>>} \cup ElemChunks \cup {a \o b : a \in ElemChunks, b \in ElemChunks} \cup QT({}, {a \o b \o c : a \in ElemChunks, b \in ElemChunks, c \in ElemChunks})
P17(all_) ==
 << [One(OpsOf({"pb", "pd"}, Conts), {T(48, x) : x \in Bodies} \cup {T(16, x) : x \in {<<>>, <<2, 1, 5>>, <<2, 1, 5, 1, 1, 255>>}}) EXCEPT !.q = {"K7"}],
    [One(OpsOf({"pb"}, Conts), {I(48, x) : x \in Bodies}) EXCEPT !.q = {"K7"}],
    [One(OpsOf({"lb", "ld", "ta"}, {"vec_u8", "vec_bool", "vec_octets", "vec_vec_u8", "seqof_u8", "seqof_octets"}) \o << <<"lb", "vec_any">>, <<"ld", "vec_any">> >>, {T(48, x) : x \in Bodies} \cup {T(16, x) : x \in {<<>>, <<2, 1, 5>>}}) EXCEPT !.lenient = TRUE],
    One(OpsOf({"pb", "pd"}, {"setof_u8", "setof_octets", "btree_u16", "hash_u16", "anyset", "setraw"}), {T(49, x) : x \in Bodies} \cup {T(17, x) : x \in {<<>>, <<2, 1, 5>>}}),
    [One(OpsOf({"lb", "ld", "ta"}, {"setof_u8", "setof_octets", "btree_u16", "hash_u16"}), {T(49, x) : x \in Bodies} \cup {T(17, x) : x \in {<<>>, <<2, 1, 5>>}}) EXCEPT !.lenient = TRUE],
    One(OpsOf({"pb", "pd"}, {"vec_vec_u8", "vec_setof_u8", "seqof_seqof_bool", "vec_any"}), {T(48, a \o b) : a \in {T(48, x) : x \in {<<>>} \cup ElemChunks} \cup {T(49, x) : x \in {<<>>} \cup ElemChunks}, b \in {<<>>, T(48, <<1, 1, 255>>), T(48, <<2, 1, 5, 2, 1, 6>>), T(49, <<2, 1, 5>>), I(48, <<2, 1, 5>>)}}),
    One(OpsOf({"pb", "pd"}, {"vec_u8", "setof_u8", "arr2_u8", "vec_any"}), {T(b, U8s(n)) : b \in {48, 49}, n \in {1, 2, 3, 4, 20, 43}}) >>

(*---------------------------------- P21 ----------------------------------*)
P21(all_) ==
 << [One(OpsOf({"pb", "lb", "pd", "ld", "ta"}, Leafs \ {"f32", "f64"}),
      UNION {TVs(t, {<<>>, <<0>>, <<1>>, <<255>>, <<0, 1>>, <<128, 0>>, <<4, 240>>, <<4, 255>>, <<42, 3>>, <<48, 65>>, <<0, 65>>, <<0, 0, 0, 65>>, <<200, 1>>}) : t \in 0..31 \ {31}} \cup UNION {TVs(t + 32, {<<>>, <<4, 1, 65>>, <<3, 2, 0, 1>>, <<2, 1, 5>>}) : t \in 0..30} \cup {<<>>, <<2>>, <<2, 1>>}) EXCEPT !.q = {"K11"}],
    [One(OpsOf({"pb", "lb", "pd", "ld"}, LegacyTags), {T(b, x) : b \in {160, 128, 161, 129, 98, 66, 227, 195, 49, 17, 162}, x \in TagInners}) EXCEPT !.q = {"K7", "K3", "K10"}],
    [One(OpsOf({"pb", "lb", "pd", "ld"}, {"vec_u8", "vec_octets", "vec_bool", "seqof_u8", "setof_u8", "btree_u16", "vec_vec_u8", "opt_u8", "opt_octets", "opt_vec_u8", "opt_oid", "opt_utf8"}), {T(b, x) : b \in {48, 49}, x \in Bodies} \cup {I(b, x) : b \in {48, 49}, x \in Elem} \cup Elem) EXCEPT !.q = {"K11"}],
    One(OpsOf({"pb", "lb", "pd", "ld"}, {"any", "header"}), {T(b, x) : b \in {0, 4, 48, 160, 94}, x \in {<<>>, <<1>>}} \cup {I(48, x) : x \in Elem} \cup {<<48, 128>>, <<4, 128>>, <<4>>, <<4, 255>>, <<4, 2, 1>>}),
    [One(OpsOf({"pb", "lb", "pd", "ld", "ta"}, {"u8", "octetstring", "bitstring", "oid", "utf8", "bool", "enumerated", "gentime", "utctime", "real", "seqraw"}), Objects) EXCEPT !.q = {"K9", "K11", "K8"}] >>

(*---------------------------------- P22 ----------------------------------*)
StaticTypes == {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "bool", "string", "seqraw", "setraw", "opt_u8", "opt_bool", "vec_u8", "vec_bool"}
P22(all_) ==
 << One(OpsOf({"ts"}, StaticTypes),
      TVs(2, IntContentsSmall) \cup TVs(1, Bytes1(0..255)) \cup TVs(12, Strings({0, 65, 195, 169}, 0, 3)) \cup {T(b, x) : b \in {48, 49}, x \in Bodies} \cup {I(b, x) : b \in {48, 49}, x \in Bodies} \cup {I(44, <<4, 1, 65, 4, 2, 66, 67>>), T(44, <<4, 1, 65>>), T(48, <<1, 1, 255, 1, 1, 0>>)}),
    One(<< <<"ts", "header">> >>, {<<b>> \o l : b \in 0..255, l \in {<<0>>, <<5>>, <<128>>, <<129, 200>>, <<130, 1, 1>>}} \cup {<<191, 129, 5, 3>>}) >>

(*------------------- tags, containers, helpers (more entry points) -------------------*)
TaggedNames == {"u8", "u32", "i64", "bool", "null", "enumerated", "octetstring", "bitstring", "utf8", "printable", "bmp", "utctime", "gentime", "real", "seqraw", "setraw", "vec_u8", "integer", "string", "setof_u8", "seqof_octets"}
TaggedLegacy == {"te1_octets", "ti0_u8", "ai200_octets", "oid"}
TaggedNew == {"te1_octets", "ti0_u8", "ai200_octets", "anyseq", "any", "opt_u8", "opt_octets", "arr2_u8", "oid"}
SomeEnc == {T(2, <<5>>), T(2, <<0, 200>>), T(2, <<1, 0, 0>>), T(1, <<255>>), T(1, <<1>>), <<5, 0>>, T(10, <<7>>), T(10, <<0, 7>>), T(4, <<1, 2, 3>>), T(36, <<4, 1, 65>>), I(36, <<4, 1, 65>>), T(3, <<4, 240>>), T(3, <<4, 255>>), T(35, <<3, 2, 4, 240>>), T(6, <<42, 3>>), T(13, <<3>>), T(12, <<65, 66>>), T(19, <<65>>), T(30, <<0, 65>>),
  T(23, <<57, 48, 48, 49, 48, 49, 48, 48, 48, 48, 48, 48, 90>>), T(24, <<50, 48, 48, 48, 48, 49, 48, 49, 48, 48, 48, 48, 48, 48, 90>>), T(9, <<128, 255, 5>>), T(9, <<>>), T(48, <<2, 1, 5, 2, 1, 6>>), T(48, <<>>), I(48, <<2, 1, 5>>), T(49, <<2, 1, 9, 2, 1, 6>>), I(49, <<>>), T(48, <<4, 1, 65>>),
  T(161, <<4, 1, 65>>), I(161, <<4, 1, 65>>), T(128, <<5>>), <<95, 129, 72, 1, 65>>, T(2, <<>>), T(2, <<5, 5, 5, 5, 5, 5, 5, 5, 5>>), <<2>>, <<2, 2, 5>>}
BigEnc == {T(4, Reps(7, n)) : n \in {124, 125, 126, 127, 128, 253, 254, 255, 256}} \cup {T(12, Reps(65, n)) : n \in {126, 127, 128}}
TagNos == {0, 1, 30, 31, 127, 128, 16383, 16384, 2097151, 2097152, 268435456}
\* an identifier octet, class and form varied, in front of a content
Frame(c, f, no, x) == (IF no < 31 THEN <<64 * c + 32 * f + no>> ELSE <<64 * c + 32 * f + 31, no>>) \o LenOct(Len(x)) \o x
FrameI(c, no, x) == (IF no < 31 THEN <<64 * c + 32 + no>> ELSE <<64 * c + 63, no>>) \o <<128>> \o x \o <<0, 0>>
ContentOf(e) == IF e[2] >= 128 \/ e[1] \in {95, 191} THEN <<5>> ELSE Drop(e, 2)
FrameInputs(C, N, X) == {<<c, n, y>> : c \in C, n \in N, y \in {Frame(c2, f, n2, x) : c2 \in 0..3, f \in 0..1, n2 \in N, x \in X} \cup {FrameI(c2, n2, x) : c2 \in 0..3, n2 \in N, x \in X}}
SameFrames(C, N, X) == UNION {{<<c, n, Frame(c, f, n, x)>>, <<c, n, FrameI(c, n, x)>>, <<c, n, Frame(c, f, n, x) \o <<0>>>>, <<c, n, Take(Frame(c, f, n, x), Len(x) + 1)>>} : c \in C, f \in 0..1, n \in N, x \in X}
LongForm(b, x) == <<b, 130, 0, Len(x)>> \o x
Wraps(b, x) == {T(b, x), I(b, x), LongForm(b, x), T(b, x) \o <<7, 7>>}
P15b(all_) ==
 << One(OpsOf({"xb", "xd", "yb", "yd"}, TaggedNames \cup TaggedNew), {<<c, n, e>> : c \in 0..3, n \in {0, 3, 31}, e \in SomeEnc}),
    One(OpsOf({"xb", "xd", "yb", "yd"}, {"octetstring", "u8", "utf8", "any"}), {<<c, n, e>> : c \in 1..3, n \in TagNos, e \in BigEnc \cup {T(2, <<5>>)}}),
    [One(OpsOf({"tb", "td"}, TaggedNames \cup TaggedLegacy), FrameInputs(QT({2}, 1..3), {0, 31}, {T(2, <<5>>), T(1, <<1>>), <<5>>}) \cup SameFrames({1, 2, 3}, {0, 1, 31}, SomeEnc \cup {<<>>, <<2, 1, 5, 2, 1, 6>>, <<2, 1, 5, 0>>})) EXCEPT !.q = {"K7", "K3", "K11", "K9"}],
    [One(OpsOf({"ub", "ud"}, TaggedNames), FrameInputs(QT({2}, 1..3), {0, 31}, {<<5>>, <<255>>, <<>>}) \cup SameFrames({1, 2, 3}, {0, 1, 31}, {ContentOf(e) : e \in {e \in SomeEnc : Len(e) > 2}} \cup {<<>>, <<4, 1, 65>>, <<36, 0>>})) EXCEPT !.q = {"K11", "K9"}] >>
P16b(all_) ==
 << [One(OpsOf({"vb", "vd"}, TaggedNames \cup TaggedLegacy), {<<2, 0, <<>>>>} \cup FrameInputs(QT({2}, 1..3), {0, 31}, {T(2, <<5>>), T(1, <<1>>), <<5>>}) \cup SameFrames({1, 2}, {0, 31}, SomeEnc \cup {<<>>, <<2, 1, 5, 2, 1, 6>>})) EXCEPT !.q = {"K3", "K11", "K7", "K9"}],
    [One(OpsOf({"ao"}, {"u8", "octetstring", "bool", "utf8", "oid", "seqraw", "integer", "null", "gentime"}), SomeEnc \cup OptInputs \cup {T(36, <<2, 1, 5>>), T(36, <<4, 1, 5, 2, 1, 5>>), I(36, <<5, 0>>), T(44, <<12, 1, 65>>), T(44, <<4, 1, 65>>), T(36, <<4, 2, 5>>), T(36, <<36, 2, 5, 0>>)}) EXCEPT !.q = {"K9"}] >>
P17b(all_) ==
 << [One(OpsOf({"qb", "qd", "rb", "rd"}, {"u8", "octetstring", "oid", "any", "vec_u8", "opt_bool"}), {T(b, x) : b \in {48, 16, 49, 112, 176}, x \in SomeEnc \cup Bodies} \cup {I(48, x) : x \in SomeEnc \cup Bodies} \cup {<<48>>, <<48, 3, 2, 1>>}) EXCEPT !.q = {"K9"}],
    [One(OpsOf({"sb", "sd", "zb", "zd"}, {"u8", "octetstring", "oid", "any", "vec_u8", "opt_bool"}), {T(b, x) : b \in {49, 17, 48, 113, 177}, x \in SomeEnc \cup Bodies} \cup {I(49, x) : x \in SomeEnc \cup Bodies} \cup {<<49>>, <<49, 3, 2, 1>>}) EXCEPT !.q = {"K9"}],
    [One(OpsOf({"cb", "cd"}, {"any", "u8", "bool", "octetstring", "vec_u8"}), Bodies \cup {a \o b : a \in SomeEnc, b \in SomeEnc} \cup {U8s(n) : n \in {3, 20}}) EXCEPT !.q = {"K9"}],
    [One(OpsOf({"wb", "wd"}, TaggedNames \cup TaggedLegacy), FrameInputs(QT({2}, 0..3), {0, 31}, {T(2, <<5>>), <<5>>}) \cup SameFrames({0, 1, 2}, {0, 16, 31}, SomeEnc \cup {<<>>, <<2, 1, 5, 2, 1, 6>>})) EXCEPT !.q = {"K11", "K9"}] >>
Outer == UNION {{Frame(c, f, n, x), FrameI(c, n, x), Frame(c, f, n, x) \o <<0>>, Take(Frame(c, f, n, x), Len(x) + 1)} : c \in 0..3, f \in 0..1, n \in {0, 1, 2, 3, 5, 17, 31}, x \in SomeEnc \cup {ContentOf(e) : e \in {e \in SomeEnc : Len(e) > 2}} \cup {<<>>, <<2, 1, 5, 2, 1, 6>>, <<2, 1, 5, 0>>}}
Calendar == {<<y, mo, d>> : y \in {0, 1, 4, 49, 50, 72, 99}, mo \in 1..12, d \in {1, 28, 29, 30, 31}}
Calendar4 == {<<y, mo, d>> : y \in QT({0, 4, 100, 1600, 1900, 1969, 1970, 2000, 2023, 2024, 2100, 9999}, {0, 1, 3, 4, 99, 100, 101, 400, 1582, 1600, 1700, 1899, 1900, 1901, 1904, 1968, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2023, 2024, 2100, 2400, 9996, 9999}), mo \in 1..12, d \in {1, 28, 29, 30, 31}}
Differentials == {<<90>>} \cup {<<g>> \o D2(h) \o D2(m) : g \in {43, 45}, h \in {0, 1, 11, 14, 25, 26, 99}, m \in {0, 1, 30, 59, 60, 99}}
P10b(all_) ==
 << One(<< <<"dt", "utctime">> >>, TVs(23, {Utc(c[1], c[2], c[3], 23, 59) \o z : c \in Calendar, z \in {<<90>>, D2(58) \o <<90>>, <<43, 48, 49, 51, 48>>, <<45, 49, 50, 48, 48>>}})),
    One(<< <<"dt", "utctime">> >>, TVs(23, {Utc(y, mo, d, h, mi) \o s \o z : y \in {0, 49, 50, 99}, mo \in {1, 12}, d \in {1, 31}, h \in {0, 23}, mi \in {0, 59}, s \in {<<>>, D2(0), D2(59)}, z \in Differentials})),
    One(<< <<"dt", "gentime">> >>, TVs(24, {Gen4(c[1], c[2], c[3], 23, 59) \o z : c \in Calendar4, z \in {<<>>, <<90>>, D2(58) \o <<44, 53, 90>>, <<43, 48, 49, 51, 48>>, <<45, 49, 50, 48, 48>>}})),
    One(<< <<"dt", "gentime">> >>, TVs(24, {Gen4(y, mo, d, h, mi) \o s \o z : y \in {0, 1999, 2000, 9999}, mo \in {1, 12}, d \in {1, 31}, h \in {0, 23}, mi \in {0, 59}, s \in {<<>>, D2(0), D2(59) \o <<46, 57, 57, 57>>, D2(1) \o <<46, 48, 48, 49>>}, z \in Differentials \cup {<<>>}})),
    One(<< <<"dt", "utctime">>, <<"dt", "gentime">> >>, {T(b, Utc(21, 7, 4, 13, 46) \o <<90>>) : b \in {55, 24, 56, 87}}) >>
P15c(all_) ==
 << [One(OpsOf({"ax"}, {"te0_u8", "te1_octets", "te31_bool", "ae2_u8", "pe3_bool", "ue17_u8", "te0_vec_u8"}), Outer) EXCEPT !.q = {"K7", "K9"}],
    [One(OpsOf({"ay"}, {"ti0_u8", "ti1_octets", "ti31_bool", "ai2_u8", "pi3_bool", "ui17_u8", "ti2_vec_u8", "ti5_utf8"}), Outer) EXCEPT !.q = {"K9"}],
    [One(OpsOf({"gx"}, TaggedNames), {<<x[2], x[3]>> : x \in FrameInputs({2}, {0, 31}, {T(2, <<5>>), T(1, <<255>>), <<5>>}) \cup SameFrames({0, 1, 2, 3}, {0, 1, 31}, SomeEnc \cup {<<>>, <<2, 1, 5, 2, 1, 6>>, <<2, 1, 5, 0>>})}) EXCEPT !.q = {"K7", "K3", "K11", "K9"}],
    [One(OpsOf({"gy"}, TaggedNames), {<<x[2], x[3]>> : x \in FrameInputs({2}, {0, 31}, {<<5>>, <<255>>, <<>>}) \cup SameFrames({0, 1, 2, 3}, {0, 1, 31}, {ContentOf(e) : e \in {e \in SomeEnc : Len(e) > 2}} \cup {<<>>, <<4, 1, 65>>, <<36, 0>>})}) EXCEPT !.q = {"K11", "K9"}],
    One(OpsOf({"Xb", "Xd", "Yb", "Yd"}, TaggedNames), {<<c, n, e>> : c \in 0..3, n \in {0, 3, 31}, e \in SomeEnc}),
    One(OpsOf({"Xb", "Xd", "Yb", "Yd"}, {"octetstring", "u8", "utf8"}), {<<c, n, e>> : c \in {0, 2}, n \in TagNos, e \in BigEnc \cup {T(2, <<5>>)}}) >>
P17c(all_) ==
 << [One(OpsOf({"ie", "if"}, {"any"}), UNION {Wraps(b, x) : b \in {48, 49, 160, 4}, x \in SomeEnc \cup Bodies \cup {a \o b : a \in SomeEnc, b \in SomeEnc}} \cup {<<>>, <<48>>}) EXCEPT !.q = {"K9"}] >>
P21c(all_) ==
 << [One(OpsOf({"cn", "cm"}, {"u8", "bool", "octetstring", "vec_u8", "any", "oid", "utf8", "opt_u8"}), UNION {Wraps(b, x) : b \in {48, 160, 4, 36}, x \in SomeEnc \cup Bodies} \cup {<<>>, <<48>>}) EXCEPT !.q = {"K9"}] >>
P21b(all_) ==
 << One(OpsOf({"tm"}, (Leafs \ {"unit", "f32", "f64", "real", "bytes", "usize", "isize"}) \cup {"reloid", "anystr", "anystring"}),
      UNION {TVs(t, {<<>>, <<0>>, <<1>>, <<255>>, <<0, 1>>, <<128, 0>>, <<4, 240>>, <<42, 3>>, <<48, 65>>, <<0, 65>>, <<0, 0, 0, 65>>, <<200, 1>>, <<195, 169>>}) : t \in 0..30} \cup UNION {TVs(t + 32, {<<>>, <<4, 1, 65>>, <<3, 2, 0, 1>>, <<2, 1, 5>>}) : t \in 0..30} \cup SomeEnc \cup {<<>>, <<2>>, <<2, 1>>}) >>
P05b(all_) == << One(OpsOf({"ia"}, {"integer"}), TVs(2, IntContents \ {<<>>}) \cup TVs(2, Rnd(QT(60, 600), 4, 51) \cup Rnd(QT(60, 600), 8, 52) \cup Rnd(QT(60, 600), 17, 53) \cup Rnd(QT(60, 600), 20, 54))) >>
OidsShort == {<<42>>, <<42, 3>>, <<42, 3, 4>>, <<42, 134, 72>>, <<42, 134>>, <<42, 134, 72, 1>>, <<42, 6>>, <<42, 129, 134, 72>>, <<43>>, <<0>>, <<0, 0>>, <<79>>, <<80>>, <<119, 1>>, <<42, 3, 132>>, <<42, 1, 3>>, <<42, 131, 3>>, <<42, 131, 3, 0>>}
P08b(all_) ==
 << One(OpsOf({"rl", "rm"}, {"oid"}), TVs(13, RelContents) \cup TVs(6, {<<42>>, <<1>>}) \cup {T(45, <<1>>), I(45, <<13, 1, 1>>), T(77, <<1>>), <<13>>, <<13, 2, 1>>, T(13, <<1>>) \o <<9>>}),
    One(OpsOf({"sw"}, {"oid"}), {<<a, b>> : a \in OidsShort \cup {<<>>}, b \in OidsShort \cup {<<>>}}) >>
P11b(all_) == << One(OpsOf({"re"}, {"real"}), {<<m, e, b>> : m \in {1, -1, 2, 3, 5, 8, 96, 1023, -1024, 65535, 65536, 1000001, -2147483647, 2147483647}, e \in (-66)..66 \cup {127, 128, 129, -127, -128, -129, -130, 255, 256, -256, 700, -700}, b \in {2, 8, 16}}) >>
BuildItems == {T(2, <<5>>), T(2, <<0, 200>>), T(2, <<0>>), T(4, <<65>>), <<5, 0>>, T(48, <<2, 1, 5>>), I(48, <<>>), T(160, <<5>>), T(2, <<0, 5>>), T(4, <<>>)}
P12b(all_) ==
 << One(OpsOf({"bl"}, {"seq_iter", "set_iter", "seqof", "setof"}), {<<>>} \cup Strings({T(2, <<5>>), T(2, <<0, 200>>), T(2, <<0>>), T(2, <<7>>), T(4, <<65>>)}, 1, 3) \cup {[i \in 1..n |-> T(2, <<(i * 37) % 128>>)] : n \in {42, 43, 85, 86}}),
    One(OpsOf({"bl"}, {"anyseq"}), {<<>>} \cup Strings(BuildItems, 1, QT(2, 3)) \cup {[i \in 1..n |-> T(2, <<(i * 37) % 128>>)] : n \in {42, 43, 85, 86}}),
    One(OpsOf({"bl"}, {"anyset"}), {<<>>} \cup Strings(BuildItems, 1, 1)) >>
(*---------------------------------- P13 ----------------------------------*)
LenBounds == {0, 1, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257}
TagSome == {T(160 + n, x) : n \in 0..3, x \in Elem} \cup {T(128 + n, x) : n \in 0..5, x \in {<<>>, <<5>>, <<255>>}} \cup {T(160, T(160 + n, x)) : n \in 0..1, x \in Elem} \cup {<<191, 31, 3, 1, 1, 255>>, <<159, 31, 1, 1>>, T(66, <<5>>), T(98, <<2, 1, 5>>), T(195, <<255>>), T(227, <<1, 1, 255>>)}
LenOcts == {<<>>} \cup {StripZ2(o) : o \in Strings({0, 1, 127, 128, 255}, 1, 4)} \cup {<<a>> \o Reps(b, n) : a \in {1, 127, 128, 255}, b \in {0, 255}, n \in 4..7}
P13(all_) ==
 << One(OpsOf({"hd"}, {"-"}), {<<c, f, h, l, n>> : c \in 0..3, f \in 0..1, h \in {0, 1, 31, 32, 4095, 4096, 65535}, l \in {0, 1, 30, 31, 127, 128, 16383, 16384, 65535}, n \in {-1, 0, 1, 127, 128, 255, 256, 65535, 65536, 16777215, 16777216, 2147483647}}),
    One(OpsOf({"hl"}, {"-"}), {<<h, l, d, o>> : h \in {0, 1, 31, 32, 4095, 4096, 65535}, l \in {0, 30, 31, 127, 128, 16383, 16384, 65535}, d \in 0..1, o \in LenOcts}),
    [One(OpsOf({"ei"}, {"iv_u8", "iv_iv", "iv_v", "v_iv", "te_iv", "ti_iv", "tve_iv", "tvi_iv"}), {<<a>> : a \in Strings({0, 5, 127, 128, 255}, 0, 2)} \cup Strings(Strings({5, 200}, 0, 2), 2, 3) \cup {<<Reps(5, n)>> : n \in {42, 43, 85, 86}}) EXCEPT !.q = {"K2"}],
    [One(OpsOf({"ed"}, QT({"octetstring"}, {"octetstring", "utf8", "te1_octets"})), {T(4, Reps(65, n)) : n \in {65535, 65536}} \cup QT({}, {T(12, Reps(65, n)) : n \in {65535, 65536}} \cup {T(161, T(4, Reps(65, n))) : n \in {65530, 65531, 65532}})) EXCEPT !.rt = FALSE],
    One(OpsOf({"ei"}, {"iv_iv", "iv_v", "v_iv"}), {<<>>}),
    \* announced, returned and written lengths of every encodable type around every boundary
    [One(OpsOf({"eb", "ed"}, {"octetstring", "bytes", "utf8", "string", "str", "ia5", "any", "seqraw", "setraw", "opt_octets", "te1_octets", "ti1_octets", "ai200_octets"}),
      {T(b, Reps(65, n)) : b \in {4, 12, 22, 48, 49, 129}, n \in LenBounds} \cup {T(161, T(4, Reps(65, n))) : n \in LenBounds} \cup {<<95, 129, 72>> \o LenOct(n) \o Reps(1, n) : n \in LenBounds}) EXCEPT !.q = {"K7"}, !.rt = FALSE],
    [One(OpsOf({"eb", "ed"}, {"vec_octets", "seqof_octets", "setof_octets", "vec_ti1_octets", "anyseq", "anyset"}),
      {T(b, Concat([i \in 1..k |-> T(t, Reps(65, n))])) : b \in {48, 49}, t \in {4, 129}, k \in 1..2, n \in LenBounds \cup {59, 60, 61, 62, 63}}) EXCEPT !.rt = FALSE],
    [One(OpsOf({"eb", "ed"}, EncTypes \cup TagsAll \cup {"opt_u8", "opt_vec_u8", "opt_null", "vec_vec_u8", "vec_te0_u8", "arr2_u8", "btree_u16", "vec_setof_u8"}), {x \in Objects : Len(x) < 40} \cup TagSome) EXCEPT !.q = {"K7", "K10"}, !.rt = FALSE],
    One(OpsOf({"xb", "xd", "yb", "yd"}, {"octetstring", "u8", "utf8", "any", "te1_octets", "ai200_octets", "opt_octets"}), {<<c, n, e>> : c \in {0, 2}, n \in TagNos, e \in {T(b, Reps(65, n2)) : b \in {4, 12}, n2 \in LenBounds} \cup {T(2, <<5>>), T(161, Long(4, 125)), T(161, Long(4, 126))}}),
    One(OpsOf({"eb", "ed"}, {"bmp", "universal", "oid", "real", "bitstring", "integer", "utctime", "gentime", "enumerated", "i64", "u128"}),
      {T(30, Concat([i \in 1..n |-> <<0, 65>>])) : n \in {0, 1, 63, 64, 127, 128}} \cup {T(30, <<216, 0, 220, 0, 0, 65>>)} \cup {T(28, Concat([i \in 1..n |-> <<0, 1, 0, 65>>])) : n \in {0, 1, 31, 32, 63, 64}} \cup {T(6, <<42>> \o Reps(5, n)) : n \in {126, 127, 254, 255}} \cup {T(3, <<u>> \o Reps(128, n)) : u \in {0, 4, 7}, n \in {1, 126, 127, 128, 254, 255}} \cup {T(2, <<1>> \o Reps(0, n)) : n \in {0, 6, 7, 8, 14, 15, 126, 127, 128}} \cup TVs(9, {<<>>, <<64>>, <<65>>, <<128, 0, 1>>, <<129, 3, 255, 7>>, <<193, 255, 0, 5>>, <<3, 49, 46, 53>>}) \cup {x \in Objects : x[1] \in {23, 24, 10}}) >>
(*------------------------------- P18, P19 --------------------------------*)
Derived == DOMAIN DerivedTypes
\* an arbitrary-size integer and a generic object keep (and write) the octets they were read from
RECURSIVE HasRaw(_)
HasRaw(ty) == CASE ty.k \in {"integer", "any"} -> TRUE
                [] ty.k = "struct" -> \E i \in DOMAIN ty.fs : HasRaw(ty.fs[i].t)
                [] ty.k = "choice" -> \E i \in DOMAIN ty.vs : HasRaw(ty.vs[i].e)
                [] ty.k \in {"list", "exp", "imp"} -> HasRaw(ty.e)
                [] OTHER -> FALSE
InOrder == SetToSeq(Derived)
PlacesNames == SetToSeq({n \in DNewDer : n \in {"s_any", "c_any", "a_any", "s_deep", "t_deep", "c_deep", "c_deepi", "s_orig", "s_nest", "s_inset", "s_opts", "c_imp"}})
\* n: a derived type; the same declarations exist under other names for other derive macros
DerivedSuites(names) ==
  LET seq == SetToSeq(names)
      New(n) == (IF n \in DNewBer THEN << <<"pb", n>>, <<"ob", n>>, <<"ib", n>> >> ELSE <<>>) \o (IF n \in DNewDer THEN << <<"pd", n>>, <<"od", n>>, <<"id", n>> >> ELSE <<>>)
                \o (IF n \in DEnc THEN << <<"eb", n>>, <<"ed", n>> >> ELSE <<>>) \o (IF n \in DStatic THEN << <<"ts", n>> >> ELSE <<>>)
                \o (IF "p_" \o n \in DPar THEN << <<"pb", "p_" \o n>>, <<"pd", "p_" \o n>> >> ELSE <<>>) \o (IF "p_" \o n \in DParEnc THEN << <<"eb", "p_" \o n>>, <<"ed", "p_" \o n>> >> ELSE <<>>)
      Old(n) == (IF n \in DOld THEN << <<"lb", n>>, <<"ld", n>>, <<"ta", n>> >> ELSE <<>>) \o (IF "b_" \o n \in DBold THEN << <<"lb", "b_" \o n>>, <<"ta", "b_" \o n>> >> ELSE <<>>)
  IN [k \in DOMAIN seq |-> [One(New(seq[k]), TypeInputs(DerivedTypes[seq[k]], ~Quick)) EXCEPT !.q = {"K7", "K1"}, !.rt = ~HasRaw(DerivedTypes[seq[k]])]]
     \o [k \in DOMAIN seq |-> [One(Old(seq[k]), TypeInputs(DerivedTypes[seq[k]], ~Quick)) EXCEPT !.q = {"K7", "K3", "K11"}, !.lenient = TRUE]]
OfKind(K) == {n \in Derived : DerivedTypes[n].k \in K}
P18(all_) == DerivedSuites(OfKind({"struct"}))
P19(all_) == DerivedSuites(Derived \ OfKind({"struct"}))

(*---------------------------------- P20 ----------------------------------*)
AnyItems == {T(2, <<5>>), T(48, T(2, <<7>>)), I(48, T(4, <<65>>)), LongForm(4, <<66>>), <<191, 129, 5, 2, 5, 0>>, I(160, I(48, <<>>)), T(160, T(161, T(2, <<5>>))), T(160, T(2, <<5>>)), <<5, 0>>}
AnyBodies == {<<>>, <<2, 1>>} \cup AnyItems \cup {a \o b : a \in AnyItems, b \in AnyItems} \cup {a \o b \o c : a \in AnyItems, b \in QT({T(2, <<5>>), I(48, <<>>)}, AnyItems), c \in QT({<<5, 0>>}, AnyItems)}
PlacesTypes == DOMAIN AnyTypes \cup {"any", "vec_any", "anyseq", "anyset"}
P20(all_) ==
 << [One(OpsOf({"pp", "pq"}, PlacesTypes), UNION {Wraps(b, x) : b \in {48, 160, 97, 49}, x \in AnyBodies} \cup {<<>>, <<48>>, <<48, 2, 5>>} \cup AnyBodies) EXCEPT !.q = {"K7"}],
    [One(OpsOf({"pp", "pq"}, PlacesTypes), UNION {Wraps(b, y) : b \in {48, 160, 162, 163, 161}, y \in UNION {{T(a, x), I(a, x), T(a, x) \o T(2, <<9>>)} : a \in {48, 160, 161}, x \in QT(AnyItems, AnyBodies)}}) EXCEPT !.q = {"K7"}],
    One(OpsOf({"Rb", "Rd", "Zb", "Zd", "Ib", "Id", "Ob", "Od"}, {"any"}), UNION {Wraps(b, x) : b \in {48, 49, 36, 4, 112, 113}, x \in AnyBodies} \cup {<<>>, <<48>>, <<48, 2, 5>>, <<4, 2, 65>>, <<49, 128, 2, 1>>}) >>
 \o [k \in 1..Len(PlacesNames) |-> [One(<< <<"pq", PlacesNames[k]>> >> \o (IF PlacesNames[k] \in DNewBer THEN << <<"pp", PlacesNames[k]>> >> ELSE <<>>),
                               TypeInputs(DerivedTypes[PlacesNames[k]], ~Quick)) EXCEPT !.q = {"K7"}]]

(*---------------------------------- P23 ----------------------------------*)
P23(all_) ==
 << One(OpsOf({"mc"}, {"absolute"}), DOMAIN MacroAbsolute), One(OpsOf({"mc"}, {"relative"}), DOMAIN MacroRelative),
    One(OpsOf({"mc"}, {"passed"}), DOMAIN MacroPassed), One(OpsOf({"mc"}, {"number"}), DOMAIN MacroNumbers), One(OpsOf({"mc"}, {"zero"}), {1}) >>

Suites ==
  CASE P = "P01" -> P01(0)
    [] P = "P02" -> P02(0)
    [] P = "P03" -> P03(0)
    [] P = "P04" -> P04(0)
    [] P = "P05" -> P05(0) \o P05b(0)
    [] P = "P06" -> P06(0)
    [] P = "P07" -> P07(0)
    [] P = "P08" -> P08(0) \o P08b(0)
    [] P = "P09" -> P09(0)
    [] P = "P10" -> P10(0) \o P10b(0)
    [] P = "P11" -> P11(0) \o P11b(0)
    [] P = "P12" -> P12(0) \o P12b(0)
    [] P = "P13" -> P13(0)
    [] P = "P15" -> P15(0) \o P15b(0) \o P15c(0)
    [] P = "P16" -> P16(0) \o P16b(0)
    [] P = "P17" -> P17(0) \o P17b(0) \o P17c(0)
    [] P = "P18" -> P18(0)
    [] P = "P19" -> P19(0)
    [] P = "P20" -> P20(0)
    [] P = "P21" -> P21(0) \o P21b(0) \o P21c(0)
    [] P = "P22" -> P22(0)
    [] P = "P23" -> P23(0)
    [] OTHER -> <<>>
=============================================================================
