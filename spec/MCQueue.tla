------------------------------ MODULE MCQueue ------------------------------
EXTENDS Queue
CONSTANTS Cfgs, Gases, Waits, MaxMsgs, MaxPush, Troubles, Sim
VARIABLES st, id, last
Pick(S) == RandomElement(S)
Pushes == SeqsFromTo(Gases, 1, MaxPush)
AllReqs(s) ==
  (IF s.n < MaxMsgs THEN [t : {"Push"}, c : {1}, gas : Pushes] ELSE {}) \cup (IF s.since % 1000 = 0 THEN [t : {"Wait"}, d : Waits] ELSE {}) \cup
  {[t |-> "Force"], [t |-> "Close"]} \cup
  (IF Troubles THEN [t : {"Refuse", "Unprice"}, x : BOOLEAN] ELSE {})
SimReq(s) ==
  LET k == Pick(1..24) IN
  CASE k <= 12 -> [t |-> "Push", c |-> Pick(1..3), gas |-> [i \in 1..Pick(1..MaxPush) |-> Pick(Gases)]]
    [] k <= 18 -> [t |-> "Wait", d |-> Pick(Waits)]
    [] k <= 22 -> [t |-> "Force"]
    [] k = 23 -> IF Pick(1..6) = 1 THEN [t |-> "Close"] ELSE [t |-> "Force"]
    [] OTHER -> IF Troubles /\ Pick(1..3) = 1 THEN [t |-> Pick({"Refuse", "Unprice"}), x |-> Pick(1..2) = 1]
                ELSE [t |-> "Wait", d |-> Pick(Waits)]
MCReqs(s) == IF Sim THEN {SimReq(s)} ELSE AllReqs(s)
MCObs(s) == [ended |-> s.ended]
MCCfg(s) == s.cfg
INSTANCE Driver WITH Inits <- {QueueInit(c) : c \in Cfgs}, Step <- QueueStep, Reqs <- MCReqs, Obs <- MCObs, CfgOf <- MCCfg
---------------------------------------------------------------------------
q == last'.q
bs == last'.out.batches
Left(s) == s.n - s.q
Sane == st.q <= st.n /\ (st.q = 0 => st.gas = 0) /\ (st.ended # "" => st.q = 0)
\* A03: what comes leaves once, in order; none while it waits; all of it in time and at the end
A03 == [][/\ (last'.err = {} => LET flat == FlattenSeq(bs) IN
              \* in order, from the first that had not left
              /\ \A i \in 1..Len(flat) : flat[i] = Left(st) + i
              /\ (st'.ended # "err" => Left(st') = Left(st) + Len(flat))
              /\ \A b \in Range(bs) : b # <<>>)
          \* nothing waits longer than the interval, or when there is no more to come
          /\ (st.ended = "" /\ q.t \in {"Force", "Close"} => st'.q = 0)
          /\ (q.t = "Wait" /\ q.d * 1000 >= Period => st'.q = 0)
          \* a batch has more than one message only if it stays below the limit
          /\ (st'.q > 1 => st'.gas < st'.cfg.limit)]_vars
=============================================================================
