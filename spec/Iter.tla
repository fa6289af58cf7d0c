-------------------------------- MODULE Iter --------------------------------
(***************************************************************************)
(* An iterator over the content of a sequence or set: the octets not yet   *)
(* consumed, whether an error has been reported, and the log of what the   *)
(* calls returned. It ends at the exact end of the content or behind the   *)
(* first error, and then stays ended.                                      *)
(*   old: SequenceIterator over slices (and Sequence/Set::ber_iter ...)    *)
(*   new: SequenceIteratorInput      any: AnyIterator with spans           *)
(***************************************************************************)
EXTENDS Suites, TLC, Json

Ideal == INSTANCE Protocol WITH Quirks <- {}
Quirky(q) == INSTANCE Protocol WITH Quirks <- q

ElemTypes == {"u8", "bool", "octetstring", "vec_u8", "any"}
Ops == {<<"jb", "old", "ber">>, <<"jd", "old", "der">>, <<"nb", "new", "ber">>, <<"nd", "new", "der">>, <<"kb", "any", "ber">>, <<"kd", "any", "der">>}
Walks == {<<o, t>> \in Ops \X ElemTypes : /\ (o[2] = "any" => t = "any") /\ (o[1] = "nd" => t # "any")} \cup {<<<<"jb", "old", "ber">>, "opt_u8">>}

Pieces == {<<2, 1, 5>>, <<2, 2, 0, 200>>, <<1, 1, 255>>, <<1, 1, 1>>, <<4, 1, 65>>, <<2, 0>>, <<0, 0>>, T(48, <<2, 1, 7>>), I(48, <<2, 1, 7>>), I(36, <<4, 1, 66>>), <<2>>, <<2, 2, 5>>, <<130, 1, 5>>, <<5, 0>>, <<48, 128, 2, 1, 7>>, <<31>>, T(36, <<4, 1, 67>>), <<4, 129, 1, 68>>, <<48, 129, 0>>, <<128, 128>>}
Few == {<<2, 1, 5>>, <<1, 1, 255>>, <<4, 1, 65>>, T(48, <<2, 1, 7>>), I(48, <<>>), <<2, 0>>, <<5, 0>>}
Contents0 == {<<>>} \cup Pieces \cup {a \o b : a \in Pieces, b \in Pieces}
            \cup {a \o b \o c : a \in QT(Few, Pieces), b \in QT(Few, Pieces), c \in QT(Few, Pieces)}
            \cup {Concat([k \in 1..n |-> <<2, 1, k % 128>>]) \o e : n \in {4, 20, 60}, e \in {<<>>, <<2>>, <<1, 1, 255>>, <<2, 1, 9>>}}

VARIABLES walk, octets, pos, fused, log, ends
vars == <<walk, octets, pos, fused, log, ends>>
Init == walk \in Walks /\ octets \in Contents0 /\ pos = 1 /\ fused = FALSE /\ log = <<>> /\ ends = 0

Api == walk[1][2]
Rules == walk[1][3]
\* what one call finds at the current position
At == IF Api = "old" THEN Ideal!Parse("old", Rules, TyOf(walk[2]), octets, pos)
      ELSE LET o == Ideal!ParseObj(Rules, octets, pos) IN
           IF o.st # "ok" \/ Api = "any" THEN o
           ELSE IF ~Ideal!Accepts(TyOf(walk[2]), o.h.t) THEN [st |-> "err"]
           ELSE LET r == Ideal!Content("new", Rules, TyOf(walk[2]), o.h, o.c) IN IF r.st # "ok" THEN [st |-> "err"] ELSE Ideal!OkP(r.v, o.p)
Shown(o) == IF Api # "any" THEN Ideal!Flat(TyOf(walk[2]), o.v)
            \* spans of the element and of its data; the content begins at offset 5 of the buffer
            ELSE LET h == Ideal!HdrFor(Rules, octets, pos) IN
                 <<pos + 4, o.p + 4, pos + 4 + h.hl, pos + 4 + h.hl + Len(o.c)>> \o Ideal!Flat(TyOf("any"), [h |-> o.h, c |-> o.c])
Finished == ends = 3
Exhausted == pos > Len(octets)
Yield == /\ ~Finished /\ ~fused /\ ~Exhausted
         /\ At.st = "ok" /\ At.p > pos
         /\ log' = log \o <<1>> \o Shown(At)
         /\ pos' = At.p
         /\ UNCHANGED <<walk, octets, fused, ends>>
\* (an element that takes no octet, such as an absent OPTIONAL, would be produced forever)
Break == /\ ~Finished /\ ~fused /\ ~Exhausted
         /\ IF At.st = "ok" THEN At.p = pos ELSE TRUE
         /\ log' = log \o <<0>>
         /\ fused' = TRUE
         /\ UNCHANGED <<walk, octets, pos, ends>>
End == /\ ~Finished /\ (fused \/ Exhausted)
       /\ log' = log \o <<2>>
       /\ ends' = ends + 1
       /\ UNCHANGED <<walk, octets, pos, fused>>
Next == Yield \/ Break \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(*------------------------------- properties ------------------------------*)
TypeOk == pos \in 1..(Len(octets) + 1)
\* positions only grow, and nothing is produced behind an error or the end
Forward == [][pos' >= pos /\ (pos' > pos => ~fused) /\ (ends > 0 => pos' = pos /\ fused' = fused)]_vars
\* the content is the concatenation of the elements iff there was no error
Complete == (Finished /\ ~fused) => pos = Len(octets) + 1
\* collecting agrees with iterating
Collected ==
  (Finished /\ Api = "new") =>
    LET r == Ideal!Items("new", Rules, TyOf(walk[2]), octets) IN (r.st = "ok") <=> ~fused
Emit == Finished => PrintT(ToString(<<"V", walk[1][1], walk[2], octets, "ok", 0, log, <<>>>>))
=============================================================================
