----------------------------- MODULE MCVoting -----------------------------
EXTENDS Voting
CONSTANTS Workers, ActiveSets, Thresholds, Expiries, Ids, Vs, Dsts, BadIds, Sets, MaxBatch, MaxPolls, MaxH, Ballot, Sim
VARIABLES st, id, last
Chain == "A"
Msg(c, i, d, v) == [c |-> c, i |-> i, d |-> d, v |-> v]
Good == [c : {Chain}, i : Ids, d : Dsts, v : Vs]
Odd == [c : {"B"}, i : {1}, d : {"B"}, v : {1}] \cup [c : {Chain}, i : BadIds, d : {"B"}, v : {1}]
Universe == Good \cup Odd
Voters == Workers \cup {"mallory"}
Open(s) == {n \in DOMAIN s.polls : ~s.polls[n].done}
VotesFor(s, n) == [1..Len(s.polls[n].items) -> Ballot]
\* breadth-first: all well-formed votes, one too short and one too long, and every request once the polls are used up
AllReqs(s) ==
  (IF Len(s.polls) < MaxPolls
   THEN [t : {"SetActive"}, workers : ActiveSets \ {s.active}] \cup
        [t : {"Verify"}, msgs : SeqsUpTo(Good, MaxBatch) \cup SeqsUpTo(Odd, 1) \cup {<<g, o>> : g \in Good, o \in Odd}] \cup
        [t : {"VerifySet"}, i : {1} \cup BadIds, set : Sets]
   ELSE [t : {"Verify"}, msgs : {m \in SeqsUpTo(Good, MaxBatch) : \A k \in 1..Len(m) : MsgStatus(s, m[k]) \in {"open", "verified"}}] \cup
        [t : {"VerifySet"}, i : {1}, set : {w \in Sets : IsSetVerified(s, w)}]) \cup
  (IF s.h < MaxH THEN [t : {"Advance"}, n : {1}] ELSE {}) \cup
  UNION {[t : {"Vote"}, by : Voters, poll : {n}, votes : VotesFor(s, n)] : n \in DOMAIN s.polls} \cup
  UNION {[t : {"Vote"}, by : {CHOOSE w \in Workers : TRUE}, poll : {n}, votes : {[k \in 1..Len(s.polls[n].items) + 1 |-> "S"],
             [k \in 1..Len(s.polls[n].items) - 1 |-> "S"]}] : n \in DOMAIN s.polls} \cup
  [t : {"Vote"}, by : {CHOOSE w \in Workers : TRUE}, poll : {Len(s.polls) + 1}, votes : {<<"S">>}] \cup
  [t : {"End"}, by : {"user"}, poll : 1..Len(s.polls) + 1]

Pick(S) == RandomElement(S)
SimReq(s) ==
  LET k == Pick(1..20)
      open == {n \in DOMAIN s.polls : s.polls[n].exp > s.h}
      due == {n \in Open(s) : s.polls[n].exp <= s.h}
      poll == IF open # {} /\ Pick(1..12) > 1 THEN (IF Pick(1..3) = 1 THEN Max(open) ELSE Pick(open)) ELSE Pick(1..Len(s.polls) + 1)
      fresh == IF poll \in DOMAIN s.polls THEN s.polls[poll].part \ DOMAIN s.polls[poll].votes ELSE {}
      len == IF poll \in DOMAIN s.polls /\ Pick(1..15) > 1 THEN Len(s.polls[poll].items) ELSE Pick(0..MaxBatch + 1)
      mood == Pick(1..4)
      \* positions lean to different outcomes in different polls
      lean(j) == IF mood = 1 THEN Pick({"S", "F", "N"})
                 ELSE IF (poll + j) % 5 = 0 THEN Pick({"F", "F", "N", "S"}) ELSE IF Pick(1..8) = 1 THEN Pick({"F", "N"}) ELSE "S"
  IN IF s.active = {} \/ k = 1 THEN [t |-> "SetActive", workers |-> Pick(ActiveSets)]
     ELSE IF k <= 3 THEN [t |-> "Advance", n |-> IF Pick(1..2) = 1 THEN 1 ELSE Pick(1..s.cfg.expiry)]
     \* (in simulation MaxPolls bounds how many polls are open for votes at a time)
     ELSE IF k = 4 /\ Cardinality(open) < MaxPolls THEN [t |-> "VerifySet", i |-> Pick(Ids \cup (IF Pick(1..4) = 1 THEN BadIds ELSE {})), set |-> Pick(Sets)]
     ELSE IF (k <= 7 /\ Cardinality(open) < MaxPolls) \/ (s.polls = <<>> /\ k < 20) THEN [t |-> "Verify", msgs |-> [j \in 1..Pick(0..MaxBatch) |-> Pick(IF Pick(1..30) = 1 THEN Universe ELSE Good)]]
     ELSE IF k <= 9 THEN [t |-> "End", by |-> Pick({"user", Pick(Voters)}), poll |-> IF due # {} /\ Pick(1..3) > 1 THEN Pick(due) ELSE Pick(1..Len(s.polls) + 1)]
     ELSE [t |-> "Vote", by |-> IF fresh # {} /\ Pick(1..8) > 1 THEN Pick(fresh) ELSE Pick(Voters),
           poll |-> poll, votes |-> [j \in 1..len |-> lean(j)]]
MCReqs(s) == IF Sim THEN {SimReq(s)} ELSE AllReqs(s)
MCObs(s) == [ver |-> {m \in Universe : IsVerified(s, m)}, sets |-> {w \in Sets : IsSetVerified(s, w)}]
MCCfg(s) == s.cfg @@ [universe |-> Universe, sets |-> Sets]
INSTANCE Driver WITH Inits <- {VotingInit([chain |-> Chain, num |-> x[1], den |-> x[2], expiry |-> e]) : x \in Thresholds, e \in Expiries},
                     Step <- VotingStep, Reqs <- MCReqs, Obs <- MCObs, CfgOf <- MCCfg
---------------------------------------------------------------------------
q == last'.q
ok == last'.err = {}
Ran(f) == {f[i] : i \in 1..Len(f)}
IsLatest(s, m, n, k) == s.mp[m] = <<n, k>>
\* who voted success for position k of poll n
Attested(s, n, k) == {w \in DOMAIN s.polls[n].votes : s.polls[n].votes[w][k] = "S"}
\* V01: verified = enough of the snapshot attested that very message in its poll
V01 == \A m \in Universe :
         IsVerified(st, m) <=>
           /\ m \in DOMAIN st.mp
           /\ LET n == st.mp[m][1] k == st.mp[m][2] p == st.polls[n] IN
              /\ p.kind = "msgs" /\ p.items[k] = m
              /\ Attested(st, n, k) \subseteq p.part
              /\ Cardinality(Attested(st, n, k)) * st.cfg.den >= Cardinality(p.part) * st.cfg.num
V01b == [][\A m \in Universe : ~IsVerified(st, m) /\ IsVerified(st', m)
             => q.t = "Vote" /\ ok /\ m \in Ran(st.polls[q.poll].items)]_vars
\* V02: who may vote, when and how; and votes change nothing else
V02 == [][/\ (q.t = "Vote" =>
               (ok <=> /\ q.poll \in DOMAIN st.polls
                       /\ q.by \in st.polls[q.poll].part /\ q.by \notin DOMAIN st.polls[q.poll].votes
                       /\ st.h < st.polls[q.poll].exp /\ Len(q.votes) = Len(st.polls[q.poll].items)))
          /\ (\A n \in DOMAIN st.polls :
                /\ DOMAIN st.polls[n].votes \subseteq DOMAIN st'.polls[n].votes
                /\ \A w \in DOMAIN st.polls[n].votes : st'.polls[n].votes[w] = st.polls[n].votes[w]
                /\ (st'.polls[n].votes # st.polls[n].votes =>
                      /\ q.t = "Vote" /\ ok /\ q.poll = n /\ DOMAIN st'.polls[n].votes = DOMAIN st.polls[n].votes \cup {q.by}
                      /\ st'.polls[n].votes[q.by] = q.votes)
                /\ st'.polls[n].part = st.polls[n].part /\ st'.polls[n].quorum = st.polls[n].quorum /\ st'.polls[n].exp = st.polls[n].exp
                /\ st'.polls[n].items = st.polls[n].items)]_vars
\* V03: polls open for exactly what needs one; verified is for ever
V03 == [][/\ (\A m \in Universe : IsVerified(st, m) => IsVerified(st', m))
          /\ (q.t = "Verify" /\ ok =>
               LET need == SelectSeq(q.msgs, LAMBDA m : m \notin DOMAIN st.mp \/ (~IsVerified(st, m) /\ st.polls[st.mp[m][1]].done)) IN
               IF need = <<>> THEN st' = st
               ELSE /\ Len(st'.polls) = Len(st.polls) + 1 /\ st'.polls[Len(st'.polls)].items = need
                    /\ st'.polls[Len(st'.polls)].exp = st.h + st.cfg.expiry /\ ~st'.polls[Len(st'.polls)].done
                    /\ \A m \in Ran(need) : st'.mp[m][1] = Len(st'.polls)
                    /\ \A m \in DOMAIN st.mp : m \notin Ran(need) => st'.mp[m] = st.mp[m])
          /\ (Len(st'.polls) > Len(st.polls) => q.t \in {"Verify", "VerifySet"} /\ ok)]_vars
\* V04: the same for worker sets
V04 == \A w \in Sets :
         IsSetVerified(st, w) <=>
           /\ w \in DOMAIN st.sp
           /\ LET p == st.polls[st.sp[w]] IN
              /\ p.kind = "set" /\ p.items[1].set = w /\ (\A n \in DOMAIN st.polls : st.polls[n].kind = "set" /\ st.polls[n].items[1].set = w => n <= st.sp[w])
              /\ Cardinality(Attested(st, st.sp[w], 1)) * st.cfg.den >= Cardinality(p.part) * st.cfg.num
V04b == [][/\ (\A w \in Sets : IsSetVerified(st, w) => IsSetVerified(st', w))
           /\ (q.t = "VerifySet" /\ ok => ~IsSetVerified(st, q.set))
           /\ (\A w \in Sets : ~IsSetVerified(st, w) /\ IsSetVerified(st', w) => q.t = "Vote" /\ ok /\ st.polls[q.poll].kind = "set")]_vars
\* V05: ending, and who is rewarded for it
V05 == [][/\ (q.t = "End" => (ok <=> q.poll \in DOMAIN st.polls /\ ~st.polls[q.poll].done /\ st.h >= st.polls[q.poll].exp))
          /\ (q.t = "End" /\ ok =>
               LET p == st.polls[q.poll]
                   res(k) == {v \in {"S", "F", "N"} : Cardinality({w \in DOMAIN p.votes : p.votes[w][k] = v}) * st.cfg.den >= Cardinality(p.part) * st.cfg.num}
               IN last'.out.rewards = {[poll |-> q.poll, worker |-> w] : w \in
                      {x \in DOMAIN p.votes : \A k \in 1..Len(p.items) : res(k) = {} \/ res(k) = {p.votes[x][k]}}})
          /\ (\A n \in DOMAIN st.polls : st'.polls[n].done # st.polls[n].done => q.t = "End" /\ ok /\ q.poll = n)]_vars
\* V06: requests are checked first
V06 == [][q.t = "Verify" /\ ok => /\ q.msgs # <<>>
                                  /\ \A i \in 1..Len(q.msgs) : q.msgs[i].c = st.cfg.chain /\ ~BadId(q.msgs[i].i)
                                  /\ (last'.out.started # <<>> => st.active # {} /\ st'.polls[Len(st'.polls)].part = st.active)]_vars
V06b == [][q.t = "VerifySet" /\ ok => st.active # {} /\ st'.polls[Len(st'.polls)].part = st.active]_vars
===========================================================================
