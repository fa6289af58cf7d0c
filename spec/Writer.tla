------------------------------- MODULE Writer -------------------------------
(***************************************************************************)
(* An encoder writing into a destination that may accept short pieces, be  *)
(* interrupted, or fail (or be full) at some octet. The encoder cuts its   *)
(* output into pieces as it likes; what the destination holds at the end   *)
(* and whether the encoder reports success depend on the destination only. *)
(* A destination is <<short, interruptions, fault, kind>>:                 *)
(*   short         the most octets it takes per call (0: all of them)      *)
(*   interruptions positions at which a call is interrupted once           *)
(*   fault         position at which it fails for good (-1: never)         *)
(*   kind          0: returns an error, 1: accepts nothing more ("full")   *)
(***************************************************************************)
EXTENDS Suites, TLC, Json

Ideal == INSTANCE Protocol WITH Quirks <- {}
Min2(a, b) == IF a < b THEN a ELSE b

\* <<rules, type, octets of the value>>
Small == {"u8", "bool", "null", "octetstring", "bitstring", "oid", "utf8", "bmp", "utctime", "gentime", "real", "seqraw", "any", "vec_u8", "te1_octets", "ti1_octets", "te0_te1_u8", "opt_u8"}
All == EncTypes \cup {"vec_u8", "vec_octets", "vec_vec_u8", "vec_any", "setof_u8", "btree_u16", "arr2_u8", "anyseq", "opt_u8", "opt_vec_u8", "unit", "f32", "f64", "numeric", "visible", "ia5", "general", "graphic", "teletex", "videotex", "objdesc", "i8", "i32", "i128", "u16", "u64"} \cup
       {"te0_u8", "te1_octets", "te31_bool", "te300_null", "ti0_u8", "ti1_octets", "ti2_vec_u8", "ti16384_null", "te0_te1_u8", "te0_ti1_u8", "ae2_u8", "pi3_bool", "vec_te0_u8", "te0_vec_u8", "ue17_u8"}
SomeVals == {T(2, <<5>>), T(2, <<255, 56>>), T(2, <<1, 2, 3, 4, 5>>), T(1, <<255>>), <<5, 0>>, T(10, <<3>>), T(4, <<>>), T(4, <<65, 66, 67>>), T(3, <<4, 16, 240>>), T(6, <<42, 134, 72>>), T(12, <<195, 169, 65>>), T(18, <<49, 32>>), T(19, <<65>>),
   T(20, <<200>>), T(21, <<65>>), T(22, <<65, 64>>), T(25, <<65>>), T(26, <<65>>), T(27, <<65>>), T(7, <<65>>), T(30, <<0, 65, 4, 16>>), T(28, <<0, 0, 4, 16>>), T(23, <<50, 49, 48, 55, 48, 52, 49, 51, 52, 54, 53, 57, 90>>), T(24, <<50, 48, 50, 49, 48, 55, 48, 52, 49, 51, 52, 54, 53, 57, 46, 53, 90>>),
   T(9, <<128, 255, 3>>), T(9, <<64>>), T(9, <<3, 49, 46, 53>>), T(48, <<>>), T(48, <<2, 1, 5>>), T(48, <<2, 1, 5, 2, 1, 7>>), T(48, <<4, 1, 65, 4, 2, 66, 67>>), T(48, T(48, <<2, 1, 5>>)), I(48, <<2, 1, 5>>), T(49, <<2, 1, 5>>), T(49, <<2, 1, 7, 2, 1, 5>>), T(49, <<2, 2, 1, 0, 2, 1, 5>>), <<>>,
   T(160, <<2, 1, 5>>), T(161, <<4, 2, 65, 66>>), <<191, 31, 3, 1, 1, 255>>, <<191, 130, 44, 2, 5, 0>>, T(128, <<5>>), T(129, <<65, 66>>), T(162, <<2, 1, 5>>), <<159, 129, 128, 0, 0>>, T(160, T(161, <<2, 1, 5>>)), T(160, T(129, <<5>>)), T(98, <<2, 1, 5>>), T(195, <<255>>), T(48, T(160, <<2, 1, 5>>)), T(160, T(48, <<2, 1, 5>>)), T(49, <<2, 1, 5>>), <<49, 3, 2, 1, 5>>}
BigVals == {T(4, [i \in 1..n |-> (i * 7) % 128]) : n \in QT({127, 130}, {126, 127, 128, 130, 255, 256})}
Modes == 0..5
Outcomes(m, y, s, mode) ==
  LET ty == TyOf(y)
      r == Ideal!Parse("new", "ber", ty, s, 1)
  IN IF r.st # "ok" THEN <<-1>>
     ELSE IF ~Ideal!EncJudged(ty, r.v) THEN <<-1>>
     ELSE LET c == Ideal!EncContent(m, ty, r.v)
              e == Ideal!Enc(m, ty, r.v)
              o == Ideal!TagOp(m, ty, <<2, 31, s>>, mode = 2)
          IN IF c = <<-1>> THEN <<-1>>
             ELSE CASE mode \in {0, 1} -> e
                    [] mode \in {2, 3} -> IF o.st = "ok" THEN o.v ELSE <<-1>>
                    [] mode = 4 -> Take(e, Len(e) - Len(c))
                    [] mode = 5 -> c
Decodes(y, s) == Ideal!Parse("new", "ber", TyOf(y), s, 1).st = "ok"
Pairs == {p \in All \X SomeVals : Decodes(p[1], p[2])} \cup ({"octetstring", "any"} \X BigVals)
Items0 == SetToSeq({<<m, p[1], p[2], mode>> : m \in {"ber", "der"}, p \in Pairs, mode \in Modes})
Expected0 == [i \in DOMAIN Items0 |-> Outcomes(Items0[i][1], Items0[i][2], Items0[i][3], Items0[i][4])]
Items == [i \in DOMAIN Items0 |-> <<Items0[i], Expected0[i]>>]
Usable == {i \in DOMAIN Items : Items[i][2] # <<-1>>}
Destinations(i) ==
  LET n == Len(Items[i][2])
      big == n > 40
      ps == IF n = 0 THEN {} ELSE IF big THEN {0, 1, 2, 3, 4, 5, n \div 2, n - 2, n - 1} ELSE 0..(n - 1)
  IN {<<k, {}, -1, 0>> : k \in {0, 1, 2, 3}}
     \cup {<<k, IF big THEN {0, 1, 2, 3, n \div 2} ELSE 0..n, -1, 0>> : k \in {0, 1}}
     \cup (IF Quick THEN {<<p % 3, IF (p + i) % 5 = 0 THEN {p} ELSE {}, p, (p + i) % 2>> : p \in ps}
           ELSE {<<k, ints, p, f>> : k \in {0, 1, 2}, ints \in {{}, {p0 \in ps : p0 % 2 = 1}}, p \in ps, f \in {0, 1}})
     \cup {<<0, {}, n, 0>>}          \* a fault right behind the last octet is never met

VARIABLES item, dest, accepted, piece, pending, result
vars == <<item, dest, accepted, piece, pending, result>>

Total == Items[item][2]
Init == /\ item \in Usable /\ dest \in Destinations(item)
        /\ accepted = <<>> /\ piece = 0 /\ pending = dest[2] /\ result = "running"
\* the encoder offers the next piece of its output (any number of octets)
Offer == /\ result = "running" /\ piece = 0 /\ Len(accepted) < Len(Total)
         /\ \E k \in {1, Len(Total) - Len(accepted)} : piece' = k
         /\ UNCHANGED <<item, dest, accepted, pending, result>>
\* what one call does
Limit == LET p == Len(accepted)
             a == IF dest[1] = 0 THEN piece ELSE Min2(dest[1], piece)
         IN IF dest[3] > p THEN Min2(a, dest[3] - p) ELSE a
Faulty == dest[3] = Len(accepted)
Interrupt == /\ result = "running" /\ piece > 0 /\ Len(accepted) \in pending
             /\ pending' = pending \ {Len(accepted)}
             /\ UNCHANGED <<item, dest, accepted, piece, result>>
Accept == /\ result = "running" /\ piece > 0 /\ Len(accepted) \notin pending /\ ~Faulty
          /\ accepted' = accepted \o SubSeq(Total, Len(accepted) + 1, Len(accepted) + Limit)
          /\ piece' = piece - Limit
          /\ UNCHANGED <<item, dest, pending, result>>
Fail == /\ result = "running" /\ piece > 0 /\ Len(accepted) \notin pending /\ Faulty
        /\ result' = "fail" /\ piece' = 0 /\ pending' = {}
        /\ UNCHANGED <<item, dest, accepted>>
Finish == /\ result = "running" /\ piece = 0 /\ Len(accepted) = Len(Total)
          /\ result' = "ok" /\ pending' = {}
          /\ UNCHANGED <<item, dest, accepted, piece>>
Next == Offer \/ Interrupt \/ Accept \/ Fail \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(*------------------------------- properties ------------------------------*)
\* the destination never holds anything but a prefix of the complete encoding
Prefix == Len(accepted) <= Len(Total) /\ Take(Total, Len(accepted)) = accepted
\* success means everything, failure means exactly what was accepted before the fault
Meaning == /\ result = "ok" => accepted = Total
           /\ result = "fail" => Len(accepted) = dest[3]
           /\ result = "ok" <=> (result # "running" /\ (dest[3] < 0 \/ dest[3] >= Len(Total)))
Monotone == [][Len(accepted') >= Len(accepted)]_vars
Ends == <>(result # "running")
Emit == \/ result = "running"
        \/ PrintT(ToString(<<"V", IF Items[item][1][1] = "ber" THEN "Wb" ELSE "Wd", Items[item][1][2],
                             <<Items[item][1][3], dest[1], SetToSeq(dest[2]), dest[3], dest[4], Items[item][1][4]>>,
                             result, IF result = "ok" THEN Len(accepted) ELSE 0, accepted, <<>>>>))
=============================================================================
