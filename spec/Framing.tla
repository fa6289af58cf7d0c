------------------------------- MODULE Framing -------------------------------
(***************************************************************************)
(* The small-step view of an object: an automaton that is fed one octet    *)
(* after the other and knows, after each, whether the object is complete,  *)
(* malformed, or how many octets are certainly missing. Its store is the   *)
(* number of open indefinite lengths and the octets still to come of the   *)
(* current length or content. The big-step view is Tlv.tla: both must      *)
(* agree in every state, and the library must agree with them.             *)
(***************************************************************************)
EXTENDS Suites, TLC, Json

Ideal == INSTANCE Protocol WITH Quirks <- {}

Alphabet == QT({0, 1, 2, 31, 48, 128, 129}, {0, 1, 2, 5, 31, 48, 63, 128, 129, 130})
FeedSteps(o) == IF o = <<>> THEN QT(6, 6) ELSE IF Len(o) < 20 THEN QT(4, 5) ELSE QT(3, 4)
NestsOf(k, u) == Concat([i \in 1..k |-> u])
\* what has been received when the exploration begins
Beginnings == {<<>>}
            \cup {NestsOf(k, <<48, 128>>) : k \in {1, 2, 7, 8, 46, 47, 48, 49, 50, 51, 60}}
            \cup {NestsOf(k, u) : k \in {24, 25, 26}, u \in {<<36, 128, 160, 128>>, <<48, 128, 2, 1, 5, 49, 128>>, <<127, 31, 128, 255, 129, 1, 128>>}}
            \cup {NestsOf(k, <<48, 128>>) \o NestsOf(j, <<0, 0>>) : k \in {48, 49}, j \in {1, 47, 48}}
            \cup {<<48, 129>>, <<4, 130, 0>>, <<4, 132, 0, 0, 0>>, <<4, 136>>, <<4, 137, 0>>, <<4, 136, 1, 0, 0, 0, 0, 0, 0>>, <<4, 137, 1, 0, 0, 0, 0, 0, 0, 0>>, <<4, 254>> \o Reps(0, 124), <<4, 254>> \o Reps(0, 125), <<31, 143, 255, 255, 255>>, <<31, 144, 128, 128>>, <<31, 129, 128, 128, 128>>, <<63, 128, 128, 128, 128>>,
                  <<4, 132, 255, 255, 255, 255>>, <<4, 136, 255, 255, 255, 255, 255, 255, 255>>, <<48, 128, 4, 131, 255, 255, 255>>, <<48, 128, 48, 3>>, <<48, 128, 0>>, <<48, 128, 32>>, <<48, 128, 0, 129>>}


Blank == [b |-> 0, g |-> <<>>, l |-> <<>>, size |-> 0]
Start == [ctl |-> "id", open |-> 0, need |-> 0, head |-> Blank, outer |-> <<>>, from |-> 0, n |-> 0]
Stop(x) == [x EXCEPT !.ctl = "bad"]
\* an object, or an end-of-contents marker, that ended at the outermost level ends everything
Ended(x) == [x EXCEPT !.ctl = IF x.open = 0 THEN "done" ELSE "id"]
\* a header is complete: lb has the significant octets of its length
Headed(m, x, def, lb) ==
  LET h == x.head
      o == [cls |-> h.b \div 64, cons |-> BitOf(h.b, 5), tag |-> IF h.g = <<>> THEN <<0, h.b % 32>> ELSE Ideal!TagHalves(h.g),
            tl |-> 1 + Len(h.g), def |-> def, lb |-> lb]
      y == IF x.outer = <<>> THEN [x EXCEPT !.outer = <<o>>, !.from = x.n] ELSE x
  IN IF (m = "der" /\ ~def) \/ Len(lb) > 8 \/ x.open >= Ideal!MaxDepth THEN Stop(x)
     ELSE IF ~def THEN [y EXCEPT !.ctl = "id", !.open = x.open + 1]
     ELSE IF x.open > 0 /\ h.b = 0 /\ h.size = 2 /\ lb = <<>> THEN Ended([y EXCEPT !.open = x.open - 1])
     ELSE IF lb = <<>> THEN Ended(y)
     ELSE [y EXCEPT !.ctl = "skip", !.need = LenVal(lb)]
Feed(m, x0, b) ==
  LET x == [x0 EXCEPT !.n = x0.n + 1, !.head.size = x0.head.size + 1]
  IN CASE x0.ctl = "id" -> [x EXCEPT !.head = [Blank EXCEPT !.b = b, !.size = 1], !.ctl = IF b % 32 = 31 THEN "tag" ELSE "len"]
       [] x0.ctl = "tag" ->
            LET g == Append(x.head.g, b % 128)
                y == [x EXCEPT !.head.g = g]
                fits == Len(g) < 5 \/ (Len(g) = 5 /\ g[1] < 16)          \* the number has 32 bits
            IN IF b < 128 THEN (IF fits THEN [y EXCEPT !.ctl = "len"] ELSE Stop(y))
               ELSE IF Len(g) >= 5 \/ (Len(g) = 4 /\ g[1] >= 16) THEN Stop(y) ELSE y
       [] x0.ctl = "len" ->
            IF b < 128 THEN Headed(m, x, TRUE, StripZeros(<<b>>))
            ELSE IF b = 128 THEN (IF BitOf(x.head.b, 5) = 1 THEN Headed(m, x, FALSE, <<>>) ELSE Stop(x))
            ELSE IF b = 255 THEN Stop(x)
            ELSE [x EXCEPT !.ctl = "count", !.need = b - 128]
       [] x0.ctl = "count" ->
            LET y == [x EXCEPT !.head.l = Append(x.head.l, b), !.need = x.need - 1]
            IN IF y.need > 0 THEN y ELSE Headed(m, y, TRUE, StripZeros(y.head.l))
       [] x0.ctl = "skip" -> LET y == [x EXCEPT !.need = x.need - 1] IN IF y.need = 0 THEN Ended(y) ELSE y
       [] OTHER -> x0                        \* complete or malformed: what follows does not matter
FeedAll(m, o) == FoldLeft(LAMBDA x, b : Feed(m, x, b), Start, o)

VARIABLES rules,     \* "ber" or "der"
          fed,       \* octets received
          unit,      \* the automaton
          left       \* octets that may still be received
vars == <<rules, fed, unit, left>>
Closed(x) == x.ctl \in {"done", "bad"}

Init == rules \in {"ber", "der"} /\ fed \in Beginnings /\ unit = FeedAll(rules, fed) /\ left = FeedSteps(fed)
Next == /\ left > 0
        /\ \E b \in IF Closed(unit) THEN {0, 255} ELSE Alphabet : fed' = Append(fed, b) /\ unit' = Feed(rules, unit, b)
        /\ rules' = rules
        /\ left' = IF Closed(unit) THEN 0 ELSE left - 1
Spec == Init /\ [][Next]_vars

(*------------------------------- properties ------------------------------*)
Content == SubSeq(fed, unit.from + 1, unit.n - IF unit.outer[1].def THEN 0 ELSE 2)
Verdict ==
  CASE unit.ctl = "done" -> Ideal!OOk(unit.n, Ideal!FlatHdr(unit.outer[1]) \o Ideal!LV(Content))
    [] unit.ctl = "bad" -> Ideal!OErr
    [] unit.ctl \in {"count", "skip"} -> Ideal!OInc(unit.need)
    [] OTHER -> Ideal!OInc(1)
Api == IF rules = "ber" THEN "pb" ELSE "pd"
\* both views of an object agree
BigStep == Verdict = Ideal!Outcome(Api, Ideal!T0("any"), fed)
\* nothing is forgotten: the octets are those of the input, and what is missing is really missing
Consumed == unit.n <= Len(fed) /\ (~Closed(unit) => unit.n = Len(fed))
Bounded == unit.open \in 0..Ideal!MaxDepth /\ unit.need >= 0 /\ (rules = "der" => unit.open = 0)
\* P03: verdicts are final, and an object never ends before the octets announced missing have come
Final == [][Closed(unit) => unit' = unit]_vars
Announced == [][unit'.ctl = "done" => unit.ctl = "done" \/ Verdict.n <= 1]_vars

Apis == IF rules = "ber" THEN <<"pb", "lb">> ELSE <<"pd", "ld">>
Emit == \A j \in 1..2 :
          PrintT(ToString(<<"V", Apis[j], "any", fed, Verdict.st, Verdict.n, Verdict.v,
                            IF unit.ctl = "tag" THEN <<<<"K9", "err", 0, <<>>>>>> ELSE <<>> >>))
=============================================================================
