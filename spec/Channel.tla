------------------------------- MODULE Channel -------------------------------
(***************************************************************************)
(* A channel between an encoder and a decoder that corrupts what it        *)
(* carries: it replaces, loses, adds, repeats, swaps octets, or stops.     *)
(* Every message it delivers is handed to every operation of the library   *)
(* that takes octets; none of them may panic, overflow, abort or fail to   *)
(* return (P04), and those of the type that was sent must give the outcome *)
(* of the specification.                                                   *)
(***************************************************************************)
EXTENDS Suites, Ops, TLC, Json

Ideal == INSTANCE Protocol WITH Quirks <- {}
Quirky(q) == INSTANCE Protocol WITH Quirks <- q

(*------------------------------ what is sent -----------------------------*)
AllTypes == Leafs \cup DOMAIN OtherTypes \cup DOMAIN TagTypes \cup DOMAIN OptTypes \cup DOMAIN AnyTypes \cup DOMAIN DerivedTypes
OpSet == {AllOps[i] : i \in DOMAIN AllOps}
Has(api, n) == (api \o ":" \o n) \in OpSet
\* the types whose messages are sent, and the operations whose outcomes are compared
Tests ==
  CASE P = "P02" -> [types |-> AllTypes, apis |-> <<"pb", "pd">>]
    [] P = "P03" -> [types |-> Leafs \cup DOMAIN OtherTypes \cup DOMAIN TagTypes, apis |-> <<"pb", "pd", "lb", "ld">>]
    [] P = "P05" -> [types |-> IntTypes \cup {"integer"}, apis |-> <<"pb", "pd", "lb", "ld", "ta", "eb", "ed">>]
    [] P = "P07" -> [types |-> {"octetstring", "bytes", "bitstring"}, apis |-> <<"pb", "pd", "lb", "ld", "ta", "eb", "ed">>]
    [] P = "P08" -> [types |-> {"oid"}, apis |-> <<"pb", "pd", "lb", "ld", "ta", "ed", "oa">>]
    [] P = "P09" -> [types |-> Ascii \cup {"bmp", "universal"}, apis |-> <<"pb", "pd", "lb", "ld", "ta", "ed">>]
    [] P = "P10" -> [types |-> {"utctime", "gentime"}, apis |-> <<"pb", "pd", "lb", "ld", "ta", "eb", "ed", "dt">>]
    [] P = "P11" -> [types |-> {"real", "f32", "f64"}, apis |-> <<"pb", "pd", "lb", "ld", "ta", "eb", "ed">>]
    [] P = "P12" -> [types |-> AllTypes, apis |-> <<"eb", "ed">>]
    [] P = "P15" -> [types |-> DOMAIN TagTypes, apis |-> <<"pb", "pd", "lb", "ld", "ta", "eb", "ed", "ax", "ay">>]
    [] P = "P16" -> [types |-> Leafs \cup DOMAIN OptTypes \cup DOMAIN TagTypes, apis |-> <<"ob", "od">>]
    [] P = "P17" -> [types |-> DOMAIN OtherTypes, apis |-> <<"pb", "pd", "lb", "ld", "ta", "ed">>]
    [] P = "P18" -> [types |-> {n \in DOMAIN DerivedTypes : DerivedTypes[n].k = "struct"}, apis |-> <<"pb", "pd", "lb", "ld", "eb", "ed">>]
    [] P = "P19" -> [types |-> {n \in DOMAIN DerivedTypes : DerivedTypes[n].k # "struct"}, apis |-> <<"pb", "pd", "lb", "ld", "eb", "ed">>]
    [] P = "P20" -> [types |-> DOMAIN AnyTypes \cup DOMAIN DerivedTypes \cup {"any", "vec_any", "anyseq", "anyset"}, apis |-> <<"pp", "pq">>]
    [] P = "P21" -> [types |-> Leafs \cup DOMAIN OtherTypes \cup DOMAIN TagTypes \cup DOMAIN OptTypes, apis |-> <<"pb", "pd", "lb", "ld", "ta">>]
    [] P = "P22" -> [types |-> AllTypes, apis |-> <<"ts">>]
    [] OTHER -> [types |-> AllTypes, apis |-> <<>>]
Types == {n \in Tests.types : P = "P04" \/ \E i \in DOMAIN Tests.apis : Has(Tests.apis[i], n)}
TypeOf == [n \in Types |-> TyOf(n)]
Apis == [n \in Types |-> SelectSeq(Tests.apis, LAMBDA a : Has(a, n))]
Special ==
  {T(9, <<3, 49, 69, 43, 48>>), T(9, <<129, 3, 255, 7>>), T(9, <<2, 45, 49, 46, 53>>), T(9, <<64>>), T(9, <<131, 2, 1, 0, 9>>),
   T(23, Utc(21, 7, 4, 13, 46) \o <<43, 48, 49, 51, 48>>), T(24, Gen4(2021, 7, 4, 13, 46)), T(24, Gen4(2021, 7, 4, 13, 46) \o D2(5) \o <<44, 49>>),
   T(6, <<42, 134, 72, 134, 247, 13, 1, 1, 11>>), T(6, <<42>> \o Reps(255, 9) \o <<127>>), T(13, <<129, 0, 5>>), T(2, Reps(255, 17)), T(2, <<0>> \o Reps(255, 16)), T(10, <<0, 255, 255, 255, 255>>),
   I(36, T(36, <<4, 1, 65>>) \o I(36, <<4, 1, 66>>)), T(35, <<3, 2, 0, 170, 3, 2, 4, 240>>), I(44, <<4, 2, 195, 169>>), I(62, <<4, 2, 0, 65>>), T(12, <<240, 159, 152, 128>>)}
Whole == {x \in Objects : Len(x) < 45}
\* messages of a type: one made from its description, and those of the samples which it accepts
Messages == [n \in Types |-> {Valid(TypeOf[n])} \cup {x \in Special \cup Whole : P = "P04" \/ Ideal!Outcome("pb", TypeOf[n], x).st = "ok"}]

(*------------------------------ the channel ------------------------------*)
Flips(b) == {IF BitOf(b, k) = 1 THEN b - Pow2(k) ELSE b + Pow2(k) : k \in 0..7}
Few == Cardinality(Types) <= 30
Some(b) == Flips(b) \cup {(b + 1) % 256, (b + 255) % 256, 0, 127, 128, 255, 36, 48, 31, 63}
Values(b) == (IF Quick THEN Some(b) ELSE IF Few THEN 0..255 ELSE Some(b) \cup {1, 2, 3, 4, 5, 6, 9, 10, 12, 16, 17, 19, 23, 24, 129, 130, 132, 160, 161, 192, 224}) \ {b}
Extra == QT({0, 1, 48, 128, 255}, {0, 1, 2, 4, 5, 31, 36, 48, 63, 127, 128, 129, 132, 160, 255})
At(o, k, x) == Take(o, k - 1) \o x \o Drop(o, k)        \* octet k replaced by x

VARIABLES sort,         \* the type of what was sent
          message,      \* what is on the channel
          hits          \* corruptions so far
vars == <<sort, message, hits>>
view == IF P = "P04" THEN <<message, hits>> ELSE <<sort, message, hits>>

\* which messages are corrupted twice (a sample which depends on the seed)
Sum(o) == FoldLeft(LAMBDA a, b : (a * 31 + b + 7) % 65521, SEED % 1000, o)
Sampled == Sum(message) % (IF P = "P04" THEN QT(2503, 1009) ELSE IF Few THEN QT(97, 23) ELSE QT(2503, 503)) = 1
Corrupt ==
  \/ \E k \in DOMAIN message : \E b \in Values(message[k]) : message' = At(message, k, <<b>>)
  \/ \E k \in DOMAIN message : message' = At(message, k, <<>>)
  \/ \E k \in DOMAIN message : \E b \in Extra : message' = At(message, k, <<b, message[k]>>)
  \/ \E k \in 0..(Len(message) - 1) : message' = Take(message, k)
  \/ \E k \in DOMAIN message : \E j \in {1, 2, 3} : k + j <= Len(message) + 1 /\ message' = At(message, k, SubSeq(message, k, k + j - 1) \o <<message[k]>>)
  \/ \E k \in 1..(Len(message) - 1) : message' = [message EXCEPT ![k] = message[k + 1], ![k + 1] = message[k]]
  \/ message' = message \o message
Init == sort \in Types /\ message \in Messages[sort] /\ hits = 0
Next == /\ hits = 0 \/ (hits = 1 /\ Sampled)
        /\ Corrupt /\ hits' = hits + 1 /\ UNCHANGED sort
Spec == Init /\ [][Next]_vars

(*------------------------------ large inputs -----------------------------*)
\* given by their repetitions: nesting far beyond every limit, long flat contents, lengths that announce more than
\* there can be
R(n, o) == <<n, o>>
Opening == {<<48, 128>>, <<36, 128>>, <<160, 128>>, <<49, 128>>, <<97, 128>>, <<191, 129, 0, 128>>, <<48, 131, 1, 0, 0>>, <<36, 131, 1, 0, 0>>, <<160, 132, 0, 1, 0, 0>>, <<35, 128>>, <<44, 128>>, <<48, 128, 36, 128>>, <<43, 128>>, <<48, 128, 2, 1, 5>>}
Rep(x) == <<"rep">> \o x
Large ==
  {Rep(<<R(n, o)>>) : n \in {49, 50, 51, 1000, QT(20000, 100000)}, o \in Opening}
  \cup {Rep(<<R(n, <<o, 128>>), R(n, <<0, 0>>)>>) : n \in {8, 9, 47, 48, 49, 50, 51, QT(5000, 50000)}, o \in {48, 36, 160, 49, 35, 44, 62}}
  \cup {Rep(<<R(n, <<o, 128>>), R(1, <<4, 1, 65>>), R(n, <<0, 0>>)>>) : n \in {4, 5, 6, 47, 48, 49, 50, 51, 3000}, o \in {48, 36, 160}}
  \cup {Rep(<<R(1, <<h, 130, 255, 255>>), R(n, o)>>) : h \in {48, 49, 4, 36, 2, 6, 9, 12, 3, 35, 160}, n \in {21845, 65535}, o \in {<<2, 1, 5>>, <<0>>, <<129>>, <<48>>}}
  \cup {Rep(<<R(1, <<h, 131, 1, 0, 0>>), R(65536, <<o>>)>>) : h \in {2, 3, 4, 6, 9, 10, 12, 18, 19, 22, 23, 24, 28, 30, 13, 1, 5}, o \in {0, 49, 65, 128, 255}}
  \cup {Rep(<<R(1, <<h, 128>>), R(n, o)>>) : h \in {36, 48, 44}, n \in {5000}, o \in {<<4, 1, 65>>, <<4, 0>>, <<5, 0>>}}
  \cup {Rep(<<R(1, <<h, 128 + k>>), R(k, <<b>>), R(j, <<2, 1, 5>>)>>) : h \in {4, 36, 48, 49, 160, 2, 12, 31}, k \in 1..9, b \in {1, 127, 128, 255}, j \in {0, 3}}
  \cup {Rep(<<R(1, <<h>>), R(k, <<b>>), R(j, <<1>>)>>) : h \in {31, 63, 191, 255}, k \in {1, 3, 4, 5, 6, 100, 5000}, b \in {128, 129, 255}, j \in {0, 2}}
  \cup {Rep(<<R(1, T(9, <<3>>)), R(1, <<>>)>>)} \cup {Rep(<<R(1, <<9, 130, 3, 233, n>>), R(1000, <<c>>)>>) : n \in {1, 2, 3}, c \in {48, 49, 57, 46, 69, 45}}

ASSUME P = "P04" => PrintT(ToString(<<"G", "octets", AllOps>>))
Plain(x) == PrintT(ToString(<<"V", "all", "octets", x, "tot", 0, <<>>, <<>>>>))
ASSUME P = "P04" => \A x \in Large : Plain(x)

(*------------------------------- properties ------------------------------*)
Deviations == {"K1", "K2", "K3", "K6", "K7", "K8", "K9", "K10", "K11", "K13"}
Alts(api, ty, o) ==
  LET all == Quirky(Deviations)!Outcome(api, ty, message)
      one == {x \in Deviations : Quirky({x})!Outcome(api, ty, message) # o}
      Under(x) == LET r == Quirky({x})!Outcome(api, ty, message) IN <<x, r.st, r.n, r.v>>
  IN IF all = o THEN <<>>
     ELSE SetToSeq({Under(x) : x \in one}) \o (IF \A x \in one : Under(x)[2] # all.st THEN <<<<"*", all.st, all.n, all.v>>>> ELSE <<>>)
\* types which hold octets that are not interpreted (their encodings need not be DER)
RECURSIVE Opaque(_)
Opaque(ty) == CASE ty.k \in {"integer", "any", "raw", "anyseq", "anyset"} -> TRUE
                [] ty.k = "struct" -> \E i \in DOMAIN ty.fs : Opaque(ty.fs[i].t)
                [] ty.k = "choice" -> \E i \in DOMAIN ty.vs : Opaque(ty.vs[i].e)
                [] ty.k \in {"list", "exp", "imp", "opt", "arr"} -> Opaque(ty.e)
                [] ty.k = "tup" -> TRUE
                [] OTHER -> FALSE
Bounded == hits \in 0..2 /\ sort \in Types
\* what a DER decoder accepts, a BER decoder accepts with the same value and extent; what is encoded is decoded
Verdicts == [i \in DOMAIN Apis[sort] |-> Ideal!Outcome(Apis[sort][i], TypeOf[sort], message)]
DerIsBer(v) == \A i, j \in DOMAIN v : (Apis[sort][i] \in {"pd", "od"} /\ Apis[sort][j] \in {"pb", "ob"} /\ v[i].st = "ok") => v[j] = v[i]
RoundTrip(v) ==
  \A i \in DOMAIN v : (Apis[sort][i] \in {"eb", "ed"} /\ v[i].st = "ok")
    => LET r == Drop(v[i].v, 7)
           b == Ideal!Outcome("pb", TypeOf[sort], r)
       IN b.st = "ok" /\ b.n = Len(r) /\ (Apis[sort][i] = "ed" => Opaque(TypeOf[sort]) \/ Ideal!Outcome("pd", TypeOf[sort], r) = b)
Emit == IF P = "P04" THEN Plain(message)
        ELSE LET v == Verdicts IN
             /\ DerIsBer(v) /\ RoundTrip(v)
             /\ \A i \in DOMAIN v :
                  v[i].st = "skip" \/ PrintT(ToString(<<"V", Apis[sort][i], sort, message, v[i].st, v[i].n, v[i].v, Alts(Apis[sort][i], TypeOf[sort], v[i])>>))
=============================================================================
