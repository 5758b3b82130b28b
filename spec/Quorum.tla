------------------------------- MODULE Quorum -------------------------------
(* packages/axelar-wasm-std: thresholds, non-zero numbers, snapshots and weighted polls, with exact arithmetic over   *)
(* the whole range of the types. Numbers are those of module Big.                                                     *)
EXTENDS Util, Big
\* State: h: block height; poll: <<>> or <<[thr, parts, quorum, size, exp, votes, done]>>, where parts is a sequence of
\* [a, w] (participants and weights). A threshold is <<numerator, denominator>>.
U64 == BigSub(BigPow2(64), <<1>>)
U128 == BigSub(BigPow2(128), <<1>>)
U256 == BigSub(BigPow2(256), <<1>>)
MaxOf(kind) == CASE kind = "u64" -> U64 [] kind = "u128" -> U128 [] kind = "u256" -> U256

QuorumInit == [h |-> 0, poll |-> <<>>]

NonZero(v, max) == v # <<>> /\ BigLe(v, max)
ValidFraction(x) == NonZero(x[1], U64) /\ NonZero(x[2], U64) /\ BigLe(x[1], x[2])
Majority(x) == ValidFraction(x) /\ BigLt(x[2], BigScale(x[1], 2))
Total(parts) == BigSum([i \in 1..Len(parts) |-> parts[i].w])
QuorumOf(thr, parts) == BigCeilDiv(BigMul(Total(parts), thr[1]), thr[2])
SnapshotErr(thr, parts) ==
  G(~Majority(thr), "threshold") \cup G(parts = <<>>, "nobody") \cup G(\E i \in 1..Len(parts) : ~NonZero(parts[i].w, U256), "weight")
  \cup G(parts # <<>> /\ BigLt(U256, Total(parts)), "overflow")

QNumber(s, q) == Ok(s, [valid |-> NonZero(q.v, MaxOf(q.kind))])
QFraction(s, q) == Ok(s, [valid |-> ValidFraction(q.x), majority |-> Majority(q.x)])
QCompare(s, q) == LET l == BigMul(q.a[1], q.b[2]) r == BigMul(q.b[1], q.a[2]) IN
  IF ValidFraction(q.a) /\ ValidFraction(q.b) THEN Ok(s, [cmp |-> BigCmp(l, r)]) ELSE Fail(s, {"fraction"})
\* deploying a contract that is configured with a threshold
QDeploy(s, q) == LET good == IF q.what = "rewards" THEN ValidFraction(q.x) ELSE Majority(q.x) IN
  IF good THEN Ok(s, <<>>) ELSE Fail(s, {"threshold"})
QOpen(s, q) ==
  LET e == SnapshotErr(q.thr, q.parts) IN
  IF e # {} THEN Fail(s, e)
  ELSE Ok([s EXCEPT !.poll = <<[thr |-> q.thr, parts |-> q.parts, quorum |-> QuorumOf(q.thr, q.parts), size |-> q.size,
                                exp |-> q.exp, votes |-> <<>>, done |-> FALSE]>>], <<>>)
Members(p) == {p.parts[i].a : i \in 1..Len(p.parts)}
WeightFor(p, k, v) == BigSum([i \in 1..Len(p.parts) |-> IF Has(p.votes, p.parts[i].a) /\ p.votes[p.parts[i].a][k] = v THEN p.parts[i].w ELSE <<>>])
Winner(p, k) == LET win == {v \in {"S", "F", "N"} : BigLe(p.quorum, WeightFor(p, k, v))} IN IF win = {} THEN "none" ELSE CHOOSE v \in win : TRUE
Agreeing(p) == {a \in DOMAIN p.votes : \A k \in 1..p.size : Winner(p, k) \in {"none", p.votes[a][k]}}
QVote(s, q) ==
  IF s.poll = <<>> THEN Fail(s, {"noPoll"})
  ELSE LET p == s.poll[1]
           e == G(q.by \notin Members(p), "notParticipant") \cup G(s.h >= p.exp, "expired") \cup G(Len(q.votes) # p.size, "wrongSize")
                \cup G(Has(p.votes, q.by), "votedAlready")
       IN IF e # {} THEN Fail(s, e) ELSE Ok([s EXCEPT !.poll[1].votes = Put(@, q.by, q.votes)], <<>>)
QFinish(s, q) ==
  IF s.poll = <<>> THEN Fail(s, {"noPoll"})
  ELSE LET e == G(s.poll[1].done, "done") \cup G(s.h < s.poll[1].exp, "notExpired")
       IN IF e # {} THEN Fail(s, e) ELSE Ok([s EXCEPT !.poll[1].done = TRUE], <<>>)
QuorumStep(s, q) ==
  CASE q.t = "Number" -> QNumber(s, q) [] q.t = "Fraction" -> QFraction(s, q) [] q.t = "Compare" -> QCompare(s, q)
    [] q.t = "Deploy" -> QDeploy(s, q) [] q.t = "Open" -> QOpen(s, q) [] q.t = "Vote" -> QVote(s, q)
    [] q.t = "Finish" -> QFinish(s, q) [] q.t = "Advance" -> Ok([s EXCEPT !.h = @ + q.n], <<>>)
\* the poll as the library reports it
QuorumObs(s) == IF s.poll = <<>> THEN [none |-> TRUE]
                ELSE LET p == s.poll[1] IN
                     [quorum |-> p.quorum, weights |-> [a \in Members(p) |-> p.parts[CHOOSE i \in 1..Len(p.parts) : p.parts[i].a = a].w],
                      winners |-> [k \in 1..p.size |-> Winner(p, k)], good |-> Agreeing(p), done |-> p.done]
=============================================================================
