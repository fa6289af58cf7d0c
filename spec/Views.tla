-------------------------------- MODULE Views --------------------------------
(***************************************************************************)
(* Inputs as views into one buffer. Every operation on an input yields     *)
(* further views; the span of each of them is the place of its octets in   *)
(* the buffer, whatever operations led to it. State: the views and headers *)
(* made so far, and what was done (script) and observed (record).          *)
(***************************************************************************)
EXTENDS Suites, TLC, Json

Ideal == INSTANCE Protocol WITH Quirks <- {}
Recorded == INSTANCE Protocol WITH Quirks <- {"K9"}

Inners == T(48, T(4, <<65>>) \o I(48, T(160, T(2, <<5>>))) \o <<5, 0>>)
Buffers == {<<>>, <<2, 1, 5>>, T(48, T(2, <<5>>) \o T(1, <<255>>)), I(48, T(4, <<65, 66>>) \o <<5, 0>>) \o <<7, 8>>, Inners \o T(2, <<9>>),
            <<191, 129, 5, 128>> \o T(2, <<1>>) \o I(36, T(4, <<65>>)) \o <<0, 0, 2, 1, 6>>, <<48, 129, 6>> \o T(48, T(2, <<7>>) \o <<0>>) \o <<255>>, I(48, I(48, I(48, <<>>))), I(48, I(48, I(48, I(48, I(48, I(48, I(48, I(48, <<>>)))))))) , <<48, 5, 2, 1>>, <<48, 128, 4, 1, 65>>, <<31, 129>>, <<0, 0, 0, 0>>, T(4, Reps(66, 200))}
Bases == QT({0, 5}, {0, 5, 1000})
Depth == QT(3, 4)

VARIABLES buffer, base, inputs, headers, script, record
vars == <<buffer, base, inputs, headers, script, record>>
Init == buffer \in Buffers /\ base \in Bases /\ inputs = << <<0, Len(buffer)>> >> /\ headers = <<>> /\ script = <<>> /\ record = <<>>

OctetsOfView(w) == SubSeq(buffer, w[1] + 1, w[2])
Width(w) == w[2] - w[1]
Spans(ws) == Concat([i \in DOMAIN ws |-> <<base + ws[i][1], base + ws[i][2]>>])
\* the operation op with argument x on view i: what is observed, the new views, the new headers
Step(op, i, x, seen, ws, hs) ==
  /\ script' = Append(script, <<op, i - 1, x>>)
  /\ record' = record \o seen \o Spans(ws)
  /\ inputs' = inputs \o ws
  /\ headers' = headers \o hs
  /\ UNCHANGED <<buffer, base>>
Fails(r) == IF r.st = "inc" THEN <<-1, r.k>> ELSE <<-2>>

Recent(s, n) == MaxOf(1, Len(s) - n + 1)..Len(s)
Counts(w) == {k \in {0, 1, 3, Width(w) - 2, Width(w)} : k \in 0..Width(w)}
TakeFront(i) == \E k \in Counts(inputs[i]) : Step(0, i, k, <<0>>, << <<inputs[i][1], inputs[i][1] + k>> >>, <<>>)
TakeBack(i) == \E k \in Counts(inputs[i]) : Step(1, i, k, <<0>>, << <<inputs[i][1] + k, inputs[i][2]>> >>, <<>>)
Split(i) == \E k \in Counts(inputs[i]) : Step(2, i, k, <<0>>, << <<inputs[i][1] + k, inputs[i][2]>>, <<inputs[i][1], inputs[i][1] + k>> >>, <<>>)
Clone(i) == Step(3, i, 0, <<0>>, << inputs[i] >>, <<>>)
\* (a tag number cut short is a recorded deviation)
Clear(i, m) == Ideal!HdrFor(m, OctetsOfView(inputs[i]), 1).st = Recorded!HdrFor(m, OctetsOfView(inputs[i]), 1).st
HeaderOf(i, m, op) ==
  LET w == inputs[i]
      h == Ideal!HdrFor(m, OctetsOfView(w), 1)
  IN Clear(i, m) /\ IF h.st # "ok" THEN Step(op, i, 0, Fails(h), <<>>, <<>>)
     ELSE Step(op, i, 0, <<0>> \o Ideal!FlatHdr(h), << <<w[1] + h.hl, w[2]>>, <<w[1], w[1] + h.hl>> >>, <<h>>)
ObjectOf(i, m, op) ==
  LET w == inputs[i]
      o == Ideal!ParseObj(m, OctetsOfView(w), 1)
  IN Clear(i, m) /\ IF o.st # "ok" THEN Step(op, i, 0, Fails(o), <<>>, <<>>)
     ELSE Step(op, i, 0, <<0>> \o Ideal!FlatHdr(o.h),
               << <<w[1] + o.p - 1, w[2]>>, <<w[1], w[1] + o.h.hl>>, <<w[1] + o.h.hl, w[1] + o.h.hl + Len(o.c)>> >>, <<o.h>>)
\* the content following a header (at most eight levels of nesting with indefinite length)
ContentAt(i, m, op) ==
  \E k \in Recent(headers, 2) :
    LET w == inputs[i]
        g == Ideal!GetContent(m, OctetsOfView(w), 1, headers[k], 8)
    IN g.st = Recorded!GetContent(m, OctetsOfView(w), 1, headers[k], 8).st /\ IF g.st # "ok" THEN Step(op, i, k - 1, Fails(g), <<>>, <<>>)
       ELSE Step(op, i, k - 1, <<0>>, << <<w[1] + g.p - 1, w[2]>>, <<w[1], w[1] + Len(g.c)>> >>, <<>>)
\* a streaming take: as many octets as asked for, or the number missing
Ask(i) == \E k \in {0, 2, Width(inputs[i]) + 1, Width(inputs[i]) + 7} :
            LET w == inputs[i] IN
            IF k <= Width(w) THEN Step(10, i, k, <<0>>, << <<w[1] + k, w[2]>>, <<w[1], w[1] + k>> >>, <<>>)
            ELSE Step(10, i, k, <<-1, k - Width(w)>>, <<>>, <<>>)
Find(i) == \E b \in {0, 5, 48} :
             LET s == OctetsOfView(inputs[i])
                 ps == {k \in DOMAIN s : s[k] = b}
             IN Step(11, i, b, <<IF ps = {} THEN -1 ELSE (CHOOSE k \in ps : \A j \in ps : k <= j) - 1>>, <<>>, <<>>)
AtEnd == script # <<>> /\ Len(script) = Depth
Next == Len(script) < Depth /\
        \E i \in Recent(inputs, QT(2, 3)) :
          \/ TakeFront(i) \/ TakeBack(i) \/ Split(i) \/ Clone(i)
          \/ HeaderOf(i, "ber", 4) \/ HeaderOf(i, "der", 5) \/ ObjectOf(i, "ber", 6) \/ ObjectOf(i, "der", 7)
          \/ (headers # <<>> /\ ContentAt(i, "ber", 8)) \/ (headers # <<>> /\ ContentAt(i, "der", 9)) \/ Ask(i) \/ Find(i)
Spec == Init /\ [][Next]_vars

(*------------------------------- properties ------------------------------*)
\* every view is a part of the buffer
InBuffer == \A i \in DOMAIN inputs : 0 <= inputs[i][1] /\ inputs[i][1] <= inputs[i][2] /\ inputs[i][2] <= Len(buffer)
\* views never change; new ones lie within the one they were made from
Permanent == [][ /\ Take(inputs', Len(inputs)) = inputs
                 /\ LET from == inputs[script'[Len(script')][2] + 1] IN
                    \A i \in (Len(inputs) + 1)..Len(inputs') : from[1] <= inputs'[i][1] /\ inputs'[i][2] <= from[2] ]_vars
\* a split loses and duplicates nothing
Partition == [][ script'[Len(script')][1] \in {2, 10} /\ Len(inputs') = Len(inputs) + 2 =>
                 LET from == OctetsOfView(inputs[script'[Len(script')][2] + 1])
                     rest == inputs'[Len(inputs') - 1]
                     taken == inputs'[Len(inputs')]
                 IN taken[2] = rest[1] /\ OctetsOfView(taken) \o OctetsOfView(rest) = from ]_vars
\* the remaining input starts where the object ends: behind its content, or behind the end-of-contents marker
Adjacent == [][ script'[Len(script')][1] \in {6, 7} /\ Len(inputs') = Len(inputs) + 3 =>
                LET n == Len(inputs')
                    h == headers'[Len(headers')]
                IN inputs'[n - 1][2] = inputs'[n][1] /\ inputs'[n - 2][1] = inputs'[n][2] + (IF h.def THEN 0 ELSE 2) ]_vars
Emit == AtEnd => PrintT(ToString(<<"V", "vw", "-", <<buffer, base, script>>, "ok", 0, record, <<>>>>))
=============================================================================
