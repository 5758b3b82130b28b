----------------------------- MODULE MCBatching -----------------------------
EXTENDS Batching
CONSTANTS Simple, MaxMust, MaxCan, MaxInner, MaxLog, Bals, Sim
VARIABLES st, id, last
\* (constants are given in the checker's configuration)
Pick(S) == RandomElement(S)
Nests == [k : {"nest"}, must : SeqsUpTo(Simple, MaxInner), can : SeqsUpTo(Simple, MaxInner)]
Calls == Simple \cup Nests
AllReqs(s) == IF Len(s.log) > MaxLog THEN {}
              ELSE [t : {"Batch"}, must : SeqsUpTo(Calls, MaxMust), can : SeqsUpTo(Calls, MaxCan)]
RECURSIVE SimCall(_, _), SimCalls(_, _)
SimCall(deep, fine) ==
  IF deep > 0 /\ Pick(1..4) = 1 THEN [k |-> "nest", must |-> SimCalls(deep - 1, fine), can |-> SimCalls(deep - 1, FALSE)]
  ELSE Pick(IF fine /\ Pick(1..25) > 1 THEN {c \in Simple : c.k = "call" \/ (c.k \in {"send", "fund"} /\ c.n < 4)} ELSE Simple)
SimCalls(deep, fine) == [i \in 1..Pick(0..(1 + deep)) |-> SimCall(deep, fine)]
Row(n, fine) == [i \in 1..Pick(0..n) |-> SimCall(IF Pick(1..6) = 1 THEN 1 ELSE 0, fine)]
SimReq(s) == IF Pick(1..3) = 1 THEN [t |-> "Batch", must |-> SimCalls(2, TRUE), can |-> SimCalls(2, FALSE)]
             ELSE [t |-> "Batch", must |-> Row(MaxMust, TRUE), can |-> Row(MaxCan, FALSE)]
MCReqs(s) == IF Sim THEN {SimReq(s)} ELSE AllReqs(s)
MCObs(s) == [bal |-> s.bal, paid |-> s.paid, got |-> s.got, log |-> s.log]
MCCfg(s) == s.cfg
INSTANCE Driver WITH Inits <- {BatchingInit([bal |-> b]) : b \in Bals}, Step <- BatchingStep, Reqs <- MCReqs, Obs <- MCObs, CfgOf <- MCCfg
---------------------------------------------------------------------------
q == last'.q
ok == last'.err = {}
\* B01, independently of how RunBatch folds: what a batch adds to the log is, in order, the mandatory calls and then
\* exactly those optional calls that are not reported as failed; each of them whole
Plain(c) == c.k # "nest"
OnlyPlain(cs) == \A i \in 1..Len(cs) : Plain(cs[i])
Logged(cs) == LET l == SelectSeq(cs, LAMBDA c : c.k \in {"call", "fund"}) IN [i \in 1..Len(l) |-> l[i].n]
Kept(cs, failed) == LET idx == {i \in 1..Len(cs) : \A j \in 1..Len(failed) : failed[j] # i - 1}
                        RECURSIVE T(_)
                        T(i) == IF i > Len(cs) THEN <<>> ELSE (IF i \in idx THEN <<cs[i]>> ELSE <<>>) \o T(i + 1)
                    IN T(1)
Sum(cs, kind) == SumF([i \in 1..Len(cs) |-> IF cs[i].k = kind THEN cs[i].n ELSE 0])
B01 == [][/\ (ok /\ OnlyPlain(q.must) /\ OnlyPlain(q.can) =>
                LET done == q.must \o Kept(q.can, last'.out.failed) IN
                /\ st'.log = st.log \o Logged(done)
                /\ \A i \in 1..Len(done) : done[i].k \notin {"bad", "none"}
                /\ st'.paid = st.paid + Sum(done, "send") /\ st'.got = st.got + Sum(done, "fund"))
          /\ (~ok => \E i \in 1..Len(q.must) : q.must[i].k # "call")
          /\ ((\A i \in 1..Len(q.must) : q.must[i].k = "call") => ok)]_vars
B01inv == st.bal + st.paid + st.got = st.cfg.bal
===========================================================================
