--------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* The receiver of a byte stream: a state machine whose state is the       *)
(* octets received so far and the verdicts of a set of decoders on them.   *)
(* TLC explores it from the inputs of a suite (see Suites), and every      *)
(* state it reaches is emitted as a vector to be replayed on the code:     *)
(*   <<"V", api, type, input, st, n, v, alternatives>>                     *)
(* alternatives are the outcomes under one recorded deviation each.        *)
(***************************************************************************)
EXTENDS Suites, Json

Ideal == INSTANCE Protocol WITH Quirks <- {}
Quirky(q) == INSTANCE Protocol WITH Quirks <- q

OpTy == [x \in DOMAIN Suites |-> [j \in DOMAIN Suites[x].ops |-> TyOf(Suites[x].ops[j][2])]]
ASSUME SuitesNotEmpty == Len(Suites) > 0

\* (the names of the variables occur nowhere in Suites as bound names: TLC would take Suites for a
\* state-dependent expression and compute it again at every use)
VARIABLES suite,     \* suite
          received,      \* octets received
          chunk,      \* chunks received
          phase,    \* "new", "" or how the exploration of this input was closed ("trail", "cut")
          verdict     \* verdict of each operation of the suite

vars == <<suite, received, chunk, phase, verdict>>
view == <<suite, received, phase>>

Ops(x) == Suites[x].ops
Verdicts(x, b) == [j \in DOMAIN Ops(x) |-> Ideal!Outcome(Ops(x)[j][1], OpTy[x][j], b)]

Init ==
  /\ suite \in DOMAIN Suites
  /\ received \in Suites[suite].init
  /\ chunk = 0
  /\ phase = "new"
  /\ verdict = <<>>
\* (verdicts are computed in a step, so that the initial inputs are shared among TLC's workers)
Deliver == phase = "new" /\ phase' = "" /\ verdict' = Verdicts(suite, received) /\ UNCHANGED <<suite, received, chunk>>

Waiting == \E j \in DOMAIN verdict : verdict[j].st = "inc"
\* receive one more chunk
Receive ==
  /\ phase = "" /\ chunk < Len(Suites[suite].chunks)
  /\ Suites[suite].gate => Waiting
  /\ \E c \in Suites[suite].chunks[chunk + 1] : received' = received \o c
  /\ chunk' = chunk + 1 /\ phase' = "" /\ suite' = suite
  /\ verdict' = Verdicts(suite, received')
\* bytes that follow an input on which nobody waits any more
Follow ==
  /\ phase = "" /\ ~Waiting
  /\ \E c \in Suites[suite].trail : received' = received \o c
  /\ phase' = "trail" /\ UNCHANGED <<suite, chunk>>
  /\ verdict' = Verdicts(suite, received')
\* the transmission stops early
Truncate ==
  /\ phase = "" /\ Suites[suite].cuts /\ (chunk = Len(Suites[suite].chunks) \/ (Suites[suite].gate /\ ~Waiting))
  /\ \E k \in 0..(Len(received) - 1) : received' = Take(received, k)
  /\ phase' = "cut" /\ UNCHANGED <<suite, chunk>>
  /\ verdict' = Verdicts(suite, received')

Next == Deliver \/ Receive \/ Follow \/ Truncate
Spec == Init /\ [][Next]_vars

(*------------------------------- properties ------------------------------*)
Settled(o) == o.st \in {"ok", "err", "eerr"}
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ Take(b, Len(a)) = a
Streaming == {"pb", "pd", "lb", "ld", "ib", "id", "ob", "od", "ta"}
OptApi(j) == Ops(suite)[j][1] \in {"ob", "od"} \/ OpTy[suite][j].k = "opt"
\* P03: a verdict never changes when more bytes arrive ...
VerdictStable ==
  [][ (phase' # "cut") => \A j \in DOMAIN verdict :
        (Ops(suite)[j][1] \in Streaming /\ verdict[j].st \in {"ok", "err"} /\ ~(OptApi(j) /\ received = <<>>)) => verdict'[j] = verdict[j] ]_vars
\* ... and a decoder never succeeds with fewer bytes than it announced missing
Announced ==
  [][ (phase' # "cut") => \A j \in DOMAIN verdict :
        (Ops(suite)[j][1] \in Streaming /\ verdict[j].st = "inc" /\ Len(received') - Len(received) < verdict[j].n) => verdict'[j].st # "ok" ]_vars
\* consumed bytes are within the input
Octets == {"pb", "pd", "lb", "ld", "ib", "id", "ob", "od", "ta", "ts", "eb", "ed", "oa", "tm", "ao", "ia", "rl", "rm", "cb", "cd", "qb", "qd", "rb", "rd", "sb", "sd", "zb", "zd"}
Within == \A j \in DOMAIN verdict : (verdict[j].st = "ok" /\ Ops(suite)[j][1] \in Octets) => verdict[j].n \in 0..Len(received)
\* operations of the same type by two entry points
PairsOf(apis) ==
  [x \in DOMAIN Suites |->
    IF Suites[x].lenient THEN {}
    ELSE {jk \in (DOMAIN Ops(x)) \X (DOMAIN Ops(x)) :
            Ops(x)[jk[1]][2] = Ops(x)[jk[2]][2] /\ <<Ops(x)[jk[1]][1], Ops(x)[jk[2]][1]>> \in apis}]
DerPairs == PairsOf({<<"pd", "pb">>, <<"ld", "lb">>, <<"id", "ib">>, <<"od", "ob">>})
ApiPairs == PairsOf({<<"pb", "lb">>, <<"pd", "ld">>, <<"pb", "ta">>})
\* P02: DER success implies BER success, same value and extent
DerIsBer == phase # "new" => \A p \in DerPairs[suite] : verdict[p[1]].st = "ok" => verdict[p[2]] = verdict[p[1]]
\* P21: both interfaces agree
Agree ==
  phase # "new" => \A p \in ApiPairs[suite] :
    (verdict[p[1]].st = verdict[p[2]].st \/ {verdict[p[1]].st, verdict[p[2]].st} = {"err", "inc"}) /\ (verdict[p[1]].st = "ok" => verdict[p[1]] = verdict[p[2]])
\* P12: what is encoded is decoded back to the same value, entirely
Encoding(o) == Drop(o.v, 7)
RoundTrip ==
  \A j \in DOMAIN verdict :
    (Ops(suite)[j][1] \in {"eb", "ed"} /\ verdict[j].st = "ok")
    => LET ty == OpTy[suite][j]
           r == Encoding(verdict[j])
           b == Ideal!Outcome("pb", ty, r)
           d == Ideal!Outcome("pd", ty, r)
           va == Ideal!Parse("new", "ber", ty, received, 1)
           vb == Ideal!Parse("new", "ber", ty, r, 1)
       IN Suites[suite].rt =>
          /\ b.st = "ok" /\ b.n = Len(r)
          /\ Ops(suite)[j][1] = "ed" => d = b /\ Ideal!Outcome("ed", ty, r).v = verdict[j].v
          /\ Ideal!Faithful(ty, va.v) => Ideal!Norm(ty, va.v) = Ideal!Norm(ty, vb.v)

(*-------------------------------- emission -------------------------------*)
Alts(j) ==
  LET q == Suites[suite].q
      op == Ops(suite)[j]
      one == {x \in q : Quirky({x})!Outcome(op[1], OpTy[suite][j], received) # verdict[j]}
      R(x) == LET o == Quirky({x})!Outcome(op[1], OpTy[suite][j], received) IN <<x, o.st, o.n, o.v>>
      all == IF q = {} THEN verdict[j] ELSE Quirky(q)!Outcome(op[1], OpTy[suite][j], received)
  IN IF q = {} THEN <<>>
     ELSE SetToSeq({R(x) : x \in one})
          \o (IF all # verdict[j] /\ \A x \in one : R(x)[2] # all.st THEN <<<<"*", all.st, all.n, all.v>>>> ELSE <<>>)
Emit ==
  \A j \in DOMAIN verdict :
    IF verdict[j].st = "skip" \/ ~Suites[suite].emit THEN TRUE
    ELSE PrintT(ToString(<<"V", Ops(suite)[j][1], Ops(suite)[j][2], received, verdict[j].st, verdict[j].n, verdict[j].v, Alts(j)>>))
=============================================================================
