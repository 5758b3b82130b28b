------------------------------ MODULE Voting ------------------------------
(* contracts/voting-verifier with packages/axelar-wasm-std's polls: attestation of source-chain messages and of new  *)
(* worker sets by quorum.                                                                                            *)
EXTENDS Util
\* State: cfg = [chain, num, den, expiry]: source chain, voting threshold num/den, poll expiry in blocks
\*   h: block height ; active: the workers the registry reports as active for the source chain
\*   polls: sequence (the poll id is the position) of
\*          [kind, items, part, quorum, exp, votes: worker -> sequence of votes, done]
\*   mp: message -> <<poll, position>> of its latest poll ; sp: worker set -> its latest poll
\* Votes are "S" (succeeded), "F" (failed), "N" (not found). Ids from 90 on stand for malformed ones.

VotingInit(cfg) == [cfg |-> cfg, h |-> 0, active |-> {}, polls |-> <<>>, mp |-> <<>>, sp |-> <<>>]

BadId(i) == i >= 90
Quorum(cfg, n) == CeilDiv(n * cfg.num, cfg.den)
Tally(p, k, v) == Cardinality({w \in DOMAIN p.votes : p.votes[w][k] = v})
Consensus(p, k) == IF \E v \in {"S", "F", "N"} : Tally(p, k, v) >= p.quorum
                   THEN CHOOSE v \in {"S", "F", "N"} : Tally(p, k, v) >= p.quorum ELSE "none"
StatusAt(s, n, k) == IF Consensus(s.polls[n], k) = "S" THEN "verified"
                     ELSE IF s.polls[n].done THEN "failed" ELSE "open"
MsgStatus(s, m) == IF ~Has(s.mp, m) THEN "unknown" ELSE StatusAt(s, s.mp[m][1], s.mp[m][2])
SetStatus(s, w) == IF ~Has(s.sp, w) THEN "unknown" ELSE StatusAt(s, s.sp[w], 1)
IsVerified(s, m) == MsgStatus(s, m) = "verified"
IsSetVerified(s, w) == SetStatus(s, w) = "verified"

OpenPoll(s, kind, items) ==
  [s EXCEPT !.polls = Append(@, [kind |-> kind, items |-> items, part |-> s.active, quorum |-> Quorum(s.cfg, Cardinality(s.active)),
                                 exp |-> s.h + s.cfg.expiry, votes |-> <<>>, done |-> FALSE])]
Started(s, kind, items) == <<[poll |-> Len(s.polls) + 1, kind |-> kind, items |-> items, part |-> s.active, exp |-> s.h + s.cfg.expiry]>>

VVerify(s, q) ==
  LET todo == SelectSeq(q.msgs, LAMBDA m : MsgStatus(s, m) \in {"unknown", "failed"})
      e == G(q.msgs = <<>>, "empty") \cup G(\E i \in 1..Len(q.msgs) : q.msgs[i].c # s.cfg.chain, "wrongChain")
           \cup G(todo # <<>> /\ s.active = {}, "noWorkers")
           \cup G(\E i \in 1..Len(todo) : BadId(todo[i].i), "badId")
      before == [i \in 1..Len(q.msgs) |-> IsVerified(s, q.msgs[i])]
      n == Len(s.polls) + 1
      \* a message listed twice is looked up at its last position
      at(m) == CHOOSE k \in 1..Len(todo) : todo[k] = m /\ \A l \in k + 1..Len(todo) : todo[l] # m
  IN IF e # {} THEN Fail(s, e)
     ELSE IF todo = <<>> THEN Ok(s, [before |-> before, started |-> <<>>])
     ELSE Ok([OpenPoll(s, "msgs", todo) EXCEPT !.mp = [m \in {todo[k] : k \in 1..Len(todo)} |-> <<n, at(m)>>] @@ @],
             [before |-> before, started |-> Started(s, "msgs", todo)])

VVerifySet(s, q) ==
  LET e == G(IsSetVerified(s, q.set), "alreadyConfirmed") \cup G(s.active = {}, "noWorkers") \cup G(BadId(q.i), "badId")
  IN IF e # {} THEN Fail(s, e)
     ELSE Ok([OpenPoll(s, "set", <<[i |-> q.i, set |-> q.set]>>) EXCEPT !.sp = Put(@, q.set, Len(s.polls) + 1)],
             [started |-> Started(s, "set", <<[i |-> q.i, set |-> q.set]>>)])

VVote(s, q) ==
  IF q.poll \notin DOMAIN s.polls THEN Fail(s, {"noPoll"})
  ELSE LET p == s.polls[q.poll]
           e == G(q.by \notin p.part, "notParticipant") \cup G(s.h >= p.exp, "expired")
                \cup G(Len(q.votes) # Len(p.items), "wrongSize") \cup G(q.by \in DOMAIN p.votes, "votedAlready")
       IN IF e # {} THEN Fail(s, e)
          ELSE Ok([s EXCEPT !.polls[q.poll].votes = Put(@, q.by, q.votes)], [voted |-> <<q.poll, q.by>>])

Agrees(p, w) == \A k \in 1..Len(p.items) : Consensus(p, k) \in {"none", p.votes[w][k]}
VEnd(s, q) ==
  IF q.poll \notin DOMAIN s.polls THEN Fail(s, {"noPoll"})
  ELSE LET p == s.polls[q.poll]
           e == G(p.done, "endedAlready") \cup G(s.h < p.exp, "notExpired")
           good == {w \in DOMAIN p.votes : Agrees(p, w)}
       IN IF e # {} THEN Fail(s, e)
          ELSE Ok([s EXCEPT !.polls[q.poll].done = TRUE],
                  [ended |-> q.poll, results |-> [k \in 1..Len(p.items) |-> Consensus(p, k)], good |-> good,
                   rewards |-> {[poll |-> q.poll, worker |-> w] : w \in good}])

VotingStep(s, q) ==
  CASE q.t = "SetActive" -> Ok([s EXCEPT !.active = q.workers], <<>>)
    [] q.t = "Advance" -> Ok([s EXCEPT !.h = @ + q.n], <<>>)
    [] q.t = "Verify" -> VVerify(s, q)
    [] q.t = "VerifySet" -> VVerifySet(s, q)
    [] q.t = "Vote" -> VVote(s, q)
    [] q.t = "End" -> VEnd(s, q)
===========================================================================
