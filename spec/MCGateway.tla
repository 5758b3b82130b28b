----------------------------- MODULE MCGateway -----------------------------
EXTENDS Gateway
CONSTANTS Srcs, Ids, Dsts, Vs, MaxBatch, MaxVer, Modes, Sim
VARIABLES st, id, last
Router == "router"
Msgs == [c : Srcs, i : Ids, d : Dsts, v : Vs]
AllIds == Srcs \X Ids
Senders == {Router, "user"}
\* for the breadth-first graph: batches in both orders, with duplicates of an id and of a message
AllReqs(s) ==
  [t : {"SetVer"}, m : Msgs] \cup [t : {"SetMode"}, mode : Modes] \cup
  [t : {"Verify"}, by : {"user"}, msgs : SeqsUpTo(Msgs, MaxBatch)] \cup
  [t : {"Route"}, by : Senders, msgs : SeqsUpTo(Msgs, MaxBatch)] \cup
  [t : {"Route"}, by : {"vv", "agg", "gateway", "owner"}, msgs : SeqsUpTo(Msgs, 1)] \cup
  [t : {"Get"}, ids : SeqsUpTo(AllIds, 2)] \cup
  (IF s.cfg.front THEN [t : {"FrontVerify", "FrontQuery"}, by : {"user"}, msgs : SeqsUpTo(Msgs, 1)] ELSE {})
\* in simulation: rows of pairwise different ids most of the time
Pick(S) == RandomElement(S)
RECURSIVE Distinct(_, _)
Distinct(I, n) == IF n = 0 \/ I = {} THEN <<>>
                  ELSE LET x == Pick(I) IN <<[c |-> x[1], i |-> x[2], d |-> Pick(Dsts), v |-> Pick(Vs)]>> \o Distinct(I \ {x}, n - 1)
SimBatch(s) == IF Pick(1..6) = 1 THEN [k \in 1..Pick(0..MaxBatch) |-> Pick(Msgs)]
               ELSE LET b == Distinct(AllIds, Pick(0..MaxBatch))
                    \* lean towards what is verified
                    IN [k \in 1..Len(b) |-> IF Pick(1..2) = 1 /\ \E m \in s.ver : MsgId(m) = MsgId(b[k])
                                            THEN CHOOSE m \in s.ver : MsgId(m) = MsgId(b[k]) ELSE b[k]]
SimReq(s) ==
  LET k == Pick(1..12) IN
  IF k <= 4 THEN [t |-> "SetVer", m |-> Pick(IF Pick(1..8) = 1 /\ s.ver # {} THEN s.ver ELSE Msgs)]
  ELSE IF k = 5 THEN [t |-> "SetMode", mode |-> IF s.mode = "up" THEN Pick(Modes) ELSE "up"]
  ELSE IF k = 6 THEN [t |-> "Get", ids |-> [j \in 1..Pick(0..4) |-> Pick(IF Pick(1..8) > 1 /\ DOMAIN s.out # {} THEN DOMAIN s.out ELSE AllIds)]]
  ELSE IF k = 7 /\ s.cfg.front THEN [t |-> Pick({"FrontVerify", "FrontQuery"}), by |-> "user", msgs |-> SimBatch(s)]
  ELSE IF k <= 8 THEN [t |-> "Verify", by |-> Pick(Senders), msgs |-> SimBatch(s)]
  ELSE [t |-> "Route", by |-> Pick({Router, "user", Pick({"user", "vv", "agg", "gateway", "owner"})}), msgs |-> SimBatch(s)]
MCReqs(s) == IF Sim THEN {SimReq(s)}
             ELSE {r \in AllReqs(s) : r.t = "SetVer" => (r.m \in s.ver \/ Cardinality(s.ver) < MaxVer)}
MCObs(s) == [x \in {"out"} |-> {s.out[k] : k \in DOMAIN s.out}]
MCCfg(s) == s.cfg
INSTANCE Driver WITH Inits <- {GatewayInit([router |-> Router, front |-> f]) : f \in BOOLEAN},
                     Step <- GatewayStep, Reqs <- MCReqs, Obs <- MCObs, CfgOf <- MCCfg
---------------------------------------------------------------------------
q == last'.q
ok == last'.err = {}
out == last'.out
Ran(f) == {f[i] : i \in 1..Len(f)}
InOrder(a, b) == \* a keeps b's order (ids are unique when this is used)
  \A i, j \in 1..Len(a) : i < j => \E k, l \in 1..Len(b) : k < l /\ b[k] = a[i] /\ b[l] = a[j]
\* G01: only what the verifier reports now, exactly, goes to the router; all of it does, in order; the rest is reported
G01 == [][/\ (q.t = "Route" /\ ok /\ q.by # Router =>
               /\ Ran(out.router) = Ran(q.msgs) \cap st.ver /\ NoDup(out.router) /\ InOrder(out.router, q.msgs)
               /\ Ran(out.failed) = Ran(q.msgs) \ st.ver)
          /\ (q.t = "Route" /\ (\E i, j \in 1..Len(q.msgs) : i # j /\ MsgId(q.msgs[i]) = MsgId(q.msgs[j])) => ~ok)
          /\ (q.t = "Route" /\ ok /\ q.by = Router => out.router = <<>>)
          /\ (q.t = "Verify" /\ ok => out.router = <<>>)]_vars
\* G02: the outbox changes by the router's deliveries only, and says exactly what was delivered
G02 == [][/\ (st'.out # st.out => q.t = "Route" /\ q.by = Router /\ ok)
          /\ (q.t = "Route" /\ q.by = Router /\ ok => \A i \in 1..Len(q.msgs) : st'.out[MsgId(q.msgs[i])] = q.msgs[i])
          /\ (\A x \in DOMAIN st.out : x \in DOMAIN st'.out
                /\ (st'.out[x] = st.out[x] \/ \E i \in 1..Len(q.msgs) : q.msgs[i] = st'.out[x]))
          /\ (\A x \in DOMAIN st'.out \ DOMAIN st.out : \E i \in 1..Len(q.msgs) : MsgId(q.msgs[i]) = x)
          /\ (q.t = "Get" => (ok <=> Ran(q.ids) \subseteq DOMAIN st.out))
          /\ (q.t = "Get" /\ ok => Len(out) = Len(q.ids) /\ \A i \in 1..Len(out) : MsgId(out[i]) = q.ids[i] /\ out[i] = st.out[q.ids[i]])]_vars
G02inv == \A x \in DOMAIN st.out : MsgId(st.out[x]) = x
\* G03: the verifier is asked about exactly the unverified messages, whichever way the request comes in
G03 == [][/\ (q.t = "Verify" /\ ok => /\ Ran(out.verifier) = Ran(q.msgs) \ st.ver /\ NoDup(out.verifier) /\ InOrder(out.verifier, q.msgs))
          /\ (q.t = "Verify" /\ (\E i, j \in 1..Len(q.msgs) : i # j /\ MsgId(q.msgs[i]) = MsgId(q.msgs[j])) => ~ok)
          /\ (q.t = "FrontVerify" => (ok <=> st.mode # "xdown"))
          /\ (q.t = "FrontVerify" /\ ok => out.verifier = q.msgs)
          /\ (q.t = "Route" /\ ok => out.verifier = <<>>)]_vars
===========================================================================
