------------------------------ MODULE MCNexus ------------------------------
EXTENDS Nexus
CONSTANTS Srcs, Dsts, Vs, Ids, Txs, MaxBatch, Sim
VARIABLES st, id, last
\* forms that do not show their index or transaction are written in one way only
Written == {i \in Ids : (i.f \in {"neg", "over", "nocolon", "noindex"} => i.x = 0) /\ (i.f = "empty" => i.n = 1)}
Msgs == [c : Srcs, d : Dsts, v : Vs, i : Written]
NMsgs == [c : Srcs, d : Dsts, v : Vs, tx : Txs]
Senders == {"router", "nexus", "user", "bridge"}
AllReqs == [t : {"Out"}, by : Senders, msgs : SeqsUpTo(Msgs, MaxBatch)] \cup
           [t : {"In"}, by : Senders, msgs : SeqsUpTo(NMsgs, MaxBatch)]
Pick(S) == RandomElement(S)
SimReq(s) ==
  LET n == Pick(0..MaxBatch)
      out(k) == [c |-> Pick(Srcs), d |-> Pick(Dsts), v |-> Pick(Vs), i |-> Pick(Written)]
      back(x) == [c |-> x[1], d |-> Pick(Dsts), v |-> Pick(Vs), i |-> x[2]]
      inn(k) == [c |-> Pick(Srcs), d |-> Pick(Dsts), v |-> Pick(Vs),
                 tx |-> Pick(IF Pick(1..25) = 1 THEN Txs ELSE {t \in Txs : t.n > 0})]
  IN IF Pick(1..4) > 1
     THEN [t |-> "Out", by |-> IF Pick(1..10) = 1 THEN Pick(Senders) ELSE "router",
           msgs |-> [k \in 1..n |-> IF Pick(1..6) = 1 /\ s.gone # {} THEN back(Pick(s.gone)) ELSE out(k)]]
     ELSE [t |-> "In", by |-> IF Pick(1..4) = 1 THEN Pick(Senders) ELSE "nexus", msgs |-> [k \in 1..n |-> inn(k)]]
MCReqs(s) == IF Sim THEN {SimReq(s)} ELSE AllReqs
MCObs(s) == [x \in {"gone"} |-> s.gone]
MCCfg(s) == s.cfg
INSTANCE Driver WITH Inits <- {NexusInit([nexus |-> "nexus", router |-> "router"])},
                     Step <- NexusStep, Reqs <- MCReqs, Obs <- MCObs, CfgOf <- MCCfg
---------------------------------------------------------------------------
q == last'.q
ok == last'.err = {}
o == last'.out
Offered == {MsgId(q.msgs[k]) : k \in 1..Len(q.msgs)}
\* N01: who may call; at most once per id, never dropped on first arrival, in order; faithful both ways
N01 == [][/\ (q.t = "Out" /\ ok => q.by = "router" /\ o.router = <<>>)
          /\ (q.t = "Out" /\ q.by = "router" => ok)
          /\ (q.t = "In" /\ ok => q.by = "nexus" /\ o.nexus = <<>>)
          /\ (q.t = "In" /\ q.by = "nexus" /\ (\A k \in 1..Len(q.msgs) : q.msgs[k].tx.n > 0) => ok)
          /\ (q.t = "Out" /\ ok => Len(o.nexus) = Cardinality(Offered \ st.gone) /\ st'.gone = st.gone \cup Offered)
          /\ (q.t = "Out" /\ ok =>
               LET f == SelectSeq([k \in 1..Len(q.msgs) |-> k], LAMBDA k : MsgId(q.msgs[k]) \notin st.gone
                                     /\ \A b \in 1..(k - 1) : MsgId(q.msgs[b]) # MsgId(q.msgs[k])) IN
                 \A a \in 1..Len(o.nexus) :
                      LET m == q.msgs[f[a]] n == o.nexus[a] IN
                      /\ n.c = m.c /\ n.d = m.d /\ n.v = m.v
                      /\ IF m.i.f \in NiceForms THEN n.tx.n = m.i.n /\ n.tx.x = m.i.x ELSE n.tx.raw = m.i)
          /\ (q.t = "In" /\ ok => Len(o.router) = Len(q.msgs)
                 /\ \A a \in 1..Len(q.msgs) : LET m == q.msgs[a] n == o.router[a] IN
                       n.c = m.c /\ n.d = m.d /\ n.v = m.v /\ n.i.n = m.tx.n /\ n.i.x = m.tx.x)
          /\ (q.t = "In" => st'.gone = st.gone)]_vars
===========================================================================
