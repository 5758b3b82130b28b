----------------------------- MODULE MCWitness -----------------------------
EXTENDS Witness
CONSTANTS Chains,     \* chains the worker may watch
          OtherChains,\* further ones that polls may be about
          Txs, Ixs,
          Calls,      \* contents of calls
          OpSets,
          Logs,       \* lists of logs a receipt may have
          Blks, Confs, Gws, Parts, Exps, Hs, Nodes, Forms, Keys, MaxMsgs, MaxRecs, Froms, Junks, Sim
VARIABLES st, id, last
Me == "w1"
Msgs == [tx : Txs, ix : Ixs, c : Calls]
Kinds == {"messages_poll_started", "worker_set_poll_started", "signing_started"}
JunkForms == {"empty", "nogateway", "types", "partial"}
Pick(S) == RandomElement(S)
\* a Sui verifier is asked about Sui only
Polled(s) == IF s.cfg.chain = "sui" THEN {"sui"} ELSE (Chains \ {"sui"}) \cup OtherChains
Polls(s) == [from : Froms, chain : Polled(s), gw : Gws, conf : Confs, exp : Exps, part : Parts, poll : {7}]
AllReqs(s) ==
  (IF Cardinality(DOMAIN s.recs) < MaxRecs
   THEN [t : {"Mine"}, tx : Txs, blk : Blks, logs : Logs] ELSE {}) \cup
  {g \in [t : {"Grow"}, head : Blks \ {0}, fin : Blks \ {0}] : g.fin <= g.head} \cup
  [t : {"Node"}, x : Nodes] \cup [t : {"Height"}, h : Hs] \cup
  {[t |-> "Msgs", from |-> p.from, chain |-> p.chain, gw |-> p.gw, conf |-> p.conf, exp |-> p.exp, part |-> p.part, poll |-> p.poll,
    form |-> "good", msgs |-> <<m>>] : p \in Polls(s), m \in Msgs} \cup
  {[t |-> "Set", from |-> p.from, chain |-> p.chain, gw |-> p.gw, conf |-> p.conf, exp |-> p.exp, part |-> p.part, poll |-> p.poll,
    form |-> "good", tx |-> x, ix |-> i, ops |-> o] : p \in Polls(s), x \in Txs, i \in Ixs, o \in OpSets} \cup
  (IF Keys = {} THEN {} ELSE {[t |-> "Signer", x |-> FALSE]} \cup {[t |-> "Sign", from |-> f, session |-> 3, v |-> 1, keys |-> [w \in P |-> IF w = Me THEN k ELSE "k2"]] :
     f \in Froms, P \in Parts, k \in Keys}) \cup
  (IF Junks THEN [t : {"Junk"}, kind : Kinds, from : {"foe"}, form : JunkForms] ELSE {})
SimReq(s) ==
  LET n == Pick(1..MaxMsgs)
      rec == IF DOMAIN s.recs = {} THEN Pick(Txs) ELSE Pick(DOMAIN s.recs)
      \* mostly about something that happened, or nearly so
      lg == IF Has(s.recs, rec) /\ s.recs[rec].logs # <<>> THEN s.recs[rec].logs[Pick(1..Len(s.recs[rec].logs))]
            ELSE [ix |-> Pick(Ixs), by |-> "g1", own |-> TRUE, k |-> "none", c |-> [ops |-> ""]]
      near == [tx |-> rec, ix |-> IF Pick(1..8) = 1 THEN Pick(Ixs) ELSE lg.ix,
               c |-> IF lg.k = "call" /\ Pick(1..6) > 1 THEN lg.c ELSE Pick(Calls)]
      any == [tx |-> Pick(Txs), ix |-> Pick(Ixs), c |-> Pick(Calls)]
      part == Pick(Parts)
      p == [from |-> IF Pick(1..9) = 1 THEN Pick(Froms) ELSE "ver",
            chain |-> IF Pick(1..9) = 1 THEN Pick(Polled(s)) ELSE s.cfg.chain,
            gw |-> IF Pick(1..9) = 1 THEN Pick(Gws) ELSE "g1", conf |-> Pick(Confs),
            exp |-> IF Pick(1..3) = 1 THEN Pick(Exps) ELSE Huge,
            part |-> IF Pick(1..4) = 1 THEN part ELSE part \cup {Me}, poll |-> Pick({1, 7, 100, 4242, Huge})]
      msgs == [k \in 1..n |-> LET r == Pick(1..3) IN
                 IF r = 1 THEN any ELSE IF Has(s.recs, rec) /\ r = 2 /\ s.recs[rec].logs # <<>>
                 THEN LET l == s.recs[rec].logs[Pick(1..Len(s.recs[rec].logs))] IN
                      [tx |-> rec, ix |-> l.ix, c |-> IF l.k = "call" THEN l.c ELSE Pick(Calls)]
                 ELSE near]
      kind == Pick(1..16)
  IN CASE kind <= 3 -> [t |-> "Mine", tx |-> Pick(Txs), blk |-> Pick(Blks), logs |-> Pick(Logs)]
       [] kind = 4 -> LET f == Pick(Blks \ {0}) IN [t |-> "Grow", head |-> f + Pick(0..3), fin |-> f]
       [] kind = 5 -> IF Pick(1..3) = 1 THEN [t |-> "Node", x |-> Pick(Nodes)] ELSE [t |-> "Node", x |-> "ok"]
       [] kind = 6 -> IF Pick(1..3) = 1 THEN [t |-> "Drop", tx |-> Pick(Txs)] ELSE [t |-> "Height", h |-> Pick(Hs)]
       [] kind = 7 -> [t |-> "Junk", kind |-> Pick(Kinds), from |-> Pick({"foe", "bar"}), form |-> Pick(JunkForms)]
       [] kind = 8 -> [t |-> "Signer", x |-> Pick(1..4) > 1]
       [] kind \in 9..10 -> [t |-> "Sign", from |-> IF Pick(1..5) = 1 THEN Pick(Froms) ELSE "mul", session |-> Pick({1, 2, 100, Huge}),
                             v |-> Pick(1..3),
                             keys |-> [w \in Pick(Parts) |-> IF w = Me THEN (IF Pick(1..5) = 1 THEN Pick(Keys) ELSE Pick(Held))
                                                             ELSE Pick({"k3", "d4", "k2"})]]
       [] kind \in 11..12 -> [t |-> "Set", from |-> p.from, chain |-> p.chain, gw |-> p.gw, conf |-> p.conf, exp |-> p.exp,
                              part |-> p.part, poll |-> p.poll, tx |-> near.tx, ix |-> near.ix,
                              ops |-> IF lg.k = "ops" /\ Pick(1..4) > 1 THEN lg.c.ops ELSE Pick(OpSets),
                              form |-> IF Pick(1..10) = 1 THEN Pick(IF s.cfg.chain = "sui" THEN {"tx", "wide"} ELSE {"tx", "addr", "short"}) ELSE "good"]
       [] OTHER -> [t |-> "Msgs", from |-> p.from, chain |-> p.chain, gw |-> p.gw, conf |-> p.conf, exp |-> p.exp, part |-> p.part,
                    poll |-> p.poll, form |-> IF Pick(1..12) = 1 THEN Pick(Forms) ELSE "good", msgs |-> msgs]
MCReqs(s) == IF Sim THEN {SimReq(s)} ELSE AllReqs(s)
MCObs(s) == [x \in {"h"} |-> s.h]
MCCfg(s) == s.cfg
INSTANCE Driver WITH Inits <- {WitnessInit([chain |-> c, me |-> Me]) : c \in Chains},
                     Step <- WitnessStep, Reqs <- MCReqs, Obs <- MCObs, CfgOf <- MCCfg
---------------------------------------------------------------------------
q == last'.q
o == last'.out
IsPoll == q.t \in {"Msgs", "Set"}
\* the transaction is in a final block
Settled(tx) == /\ tx \in DOMAIN st.recs /\ st.recs[tx].blk > 0
               /\ IF st.cfg.chain = "sui" THEN TRUE ELSE IF st.cfg.chain = "ethereum" THEN st.recs[tx].blk <= st.fin ELSE st.recs[tx].blk <= st.head + 1 - q.conf
Emitted(tx, ix) == {l \in Range(st.recs[tx].logs) : l.ix = ix /\ l.by = q.gw /\ (l.own \/ st.cfg.chain = "sui")}
\* A01: it testifies exactly to what the gateway of the poll emitted in a final block, message by message
A01 == [][/\ (q.t = "Msgs" /\ o.n > 0 =>
                /\ Len(o.votes) = Len(q.msgs)
                /\ \A k \in 1..Len(q.msgs) : LET m == q.msgs[k] IN
                     (o.votes[k] = "S" => Settled(m.tx) /\ \E l \in Emitted(m.tx, m.ix) : l.k = "call" /\ l.c = m.c)
                /\ (st.node = "ok" /\ q.form = "good" => \A k \in 1..Len(q.msgs) : LET m == q.msgs[k] IN
                      Settled(m.tx) /\ Cardinality({i \in 1..Len(st.recs[m.tx].logs) : st.recs[m.tx].logs[i].ix = m.ix}) = 1
                      /\ (\E l \in Emitted(m.tx, m.ix) : l.k = "call" /\ l.c = m.c) => o.votes[k] = "S"))
          /\ (q.t = "Set" /\ o.n > 0 =>
                /\ Len(o.votes) = 1
                /\ (o.votes[1] = "S" => Settled(q.tx) /\ \E l \in Emitted(q.tx, q.ix) : l.k = "ops" /\ l.c.ops = q.ops))]_vars
\* A02: it answers what it is asked, once, to the contract that asked; and signs with the key it is to sign with
A02 == [][/\ (IsPoll /\ o.n > 0 => o.n = 1 /\ o.to = "ver" /\ q.from = "ver" /\ o.poll = q.poll /\ st.cfg.me \in q.part
                                   /\ q.chain = st.cfg.chain /\ st.h < q.exp)
          /\ (IsPoll /\ st.node = "ok" /\ q.from = "ver" /\ st.cfg.me \in q.part /\ q.chain = st.cfg.chain /\ st.h < q.exp => o.n = 1)
          /\ (q.t = "Sign" /\ o.n > 0 => o.to = "mul" /\ q.from = "mul" /\ st.cfg.me \in DOMAIN q.keys /\ o.key = q.keys[st.cfg.me]
                                         /\ o.v = q.v /\ o.session = q.session)
          /\ (q.t = "Sign" /\ st.signer /\ q.from = "mul" /\ st.cfg.me \in DOMAIN q.keys => o.n = 1 \/ q.keys[st.cfg.me] \notin Held)
          /\ (q.t = "Junk" => o.n = 0 /\ o.failed = "")]_vars
=============================================================================
