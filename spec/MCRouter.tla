----------------------------- MODULE MCRouter -----------------------------
EXTENDS Router
CONSTANTS Chains, Regs, Unknown, Gws, MaxBatch, Ids, Sim
VARIABLES st, id, last
Gov == "gov" Admin == "admin" Nexus == "nexus" User == "user"
Universe == Chains \cup Unknown
Cfg == [admin |-> Admin, gov |-> Gov, nexus |-> Nexus]
Dirs == {"none", "in", "out", "both"}
Msg == [c : Universe, i : Ids, d : Universe]
Callers == {Gov, Admin, User}
Senders == Gws \cup {Nexus, User, Gov}

AllReqs ==
  [t : {"Register", "Upgrade"}, by : Callers, chain : Regs, gw : Gws] \cup
  [t : {"Freeze", "Unfreeze"}, by : Callers, chain : Universe, dir : Dirs] \cup
  [t : {"Register", "Upgrade", "Freeze", "Unfreeze"}, by : {Nexus, "router", "owner"}, chain : Regs, gw : Gws, dir : {"in"}] \cup
  [t : {"Route"}, by : Senders, msgs : SeqsUpTo(Msg, MaxBatch)]

Pick(S) == RandomElement(S)
\* simulation draws requests that are mostly well-directed, so that long behaviours do something
SimMsgs(s, g) ==
  LET own == ChainOf(s, g)
      src == IF own # {} /\ Pick(1..10) > 1 THEN own ELSE Universe
      n == Pick(0..MaxBatch)
      \* half of the batches are clean, so that long ones get through
      live == {c \in DOMAIN s.chains : ~s.chains[c].fout}
      clean == own # {} /\ live # {} /\ Pick(1..2) = 1
      one(i) == IF clean THEN [c |-> CHOOSE c \in own : TRUE, i |-> Pick(Ids), d |-> Pick(IF Pick(1..6) = 1 THEN Universe \ (DOMAIN s.chains \ live) ELSE live)] ELSE [c |-> Pick(IF Pick(1..25) = 1 THEN Universe ELSE src), i |-> Pick(Ids),
                 d |-> Pick(IF Pick(1..8) > 1 /\ DOMAIN s.chains # {} THEN DOMAIN s.chains ELSE Universe)]
  IN [i \in 1..n |-> one(i)]
SimReq(s) ==
  LET k == Pick(1..10) IN
  IF k <= 1 + (IF Cardinality(DOMAIN s.chains) < 3 THEN 3 ELSE 0)
  THEN [t |-> "Register", by |-> Pick({Gov, Gov, Pick(Callers)}), chain |-> Pick(Universe), gw |-> Pick(Gws)]
  ELSE IF k = 5 THEN [t |-> "Upgrade", by |-> IF Pick(1..4) = 1 THEN Pick(Callers) ELSE Gov, chain |-> Pick(Universe), gw |-> Pick(Gws)]
  ELSE IF k = 6 THEN [t |-> Pick({"Freeze", "Unfreeze"}), by |-> IF Pick(1..4) = 1 THEN Pick(Callers) ELSE Admin, chain |-> Pick(Universe), dir |-> Pick(Dirs)]
  ELSE IF k = 7 THEN [t |-> "Unfreeze", by |-> Admin, chain |-> Pick(Universe), dir |-> Pick(Dirs)]
  ELSE LET g == IF Pick(1..6) = 1 \/ DOMAIN s.chains = {} THEN Pick(Senders) ELSE s.chains[Pick(DOMAIN s.chains)].gw
       IN [t |-> "Route", by |-> g, msgs |-> SimMsgs(s, g)]

MCReqs(s) == IF Sim THEN {SimReq(s)} ELSE AllReqs
MCObs(s) == [chains |-> RouterObs(s, Universe)]
MCCfg(s) == s.cfg
INSTANCE Driver WITH Inits <- {RouterInit(Cfg)}, Step <- RouterStep, Reqs <- MCReqs, Obs <- MCObs, CfgOf <- MCCfg

---------------------------------------------------------------------------
q == last'.q
ok == last'.err = {}
Sent == last'.out.sent
Delivered(g) == IF g \in DOMAIN Sent THEN Sent[g] ELSE <<>>
SrcOf(g) == ChainOf(st, g)

\* R01: a batch is let in only from the live gateway of the one chain all of it claims, or from nexus
R01 == [][q.t = "Route" /\ ok =>
            \/ q.by = Nexus
            \/ \E c \in DOMAIN st.chains : /\ st.chains[c].gw = q.by
                                           /\ \A i \in 1..Len(q.msgs) : q.msgs[i].c = c]_vars
\* R02: what comes out is exactly what went in, per live destination gateway, in order, and nothing else
Dest(m) == IF Has(st.chains, m.d) THEN st.chains[m.d].gw ELSE Nexus
R02 == [][/\ (q.t = "Route" /\ ok =>
               /\ DOMAIN Sent \subseteq Gws \cup {Nexus}
               /\ \A g \in Gws \cup {Nexus} : Delivered(g) = SelectSeq(q.msgs, LAMBDA m : Dest(m) = g)
               /\ (q.by = Nexus => Delivered(Nexus) = <<>>))
          /\ (q.t # "Route" /\ ok => Sent = <<>>)]_vars
\* R02, other half: a good batch is not refused
R02b == [][q.t = "Route" /\ (\E c \in DOMAIN st.chains : st.chains[c].gw = q.by /\ ~st.chains[c].fin
                              /\ \A i \in 1..Len(q.msgs) : q.msgs[i].c = c /\ (Has(st.chains, q.msgs[i].d) => ~st.chains[q.msgs[i].d].fout))
            => ok]_vars
\* R03: nothing passes a frozen direction; freezing touches only the named direction of the named chain
R03 == [][/\ (q.t = "Route" /\ ok =>
               \A i \in 1..Len(q.msgs) :
                 /\ (Has(st.chains, q.msgs[i].d) => ~st.chains[q.msgs[i].d].fout)
                 /\ (q.by # Nexus => ~st.chains[q.msgs[i].c].fin))
          /\ (q.t \in {"Freeze", "Unfreeze"} /\ ok =>
               \A c \in DOMAIN st.chains :
                 /\ st'.chains[c].gw = st.chains[c].gw
                 /\ st'.chains[c].fin  = (IF c = q.chain /\ q.dir \in {"in", "both"} THEN q.t = "Freeze" ELSE st.chains[c].fin)
                 /\ st'.chains[c].fout = (IF c = q.chain /\ q.dir \in {"out", "both"} THEN q.t = "Freeze" ELSE st.chains[c].fout))
          /\ (q.t \notin {"Freeze", "Unfreeze"} =>
               \A c \in DOMAIN st.chains : st'.chains[c].fin = st.chains[c].fin /\ st'.chains[c].fout = st.chains[c].fout)]_vars
\* R04: one chain per gateway, registry moves only by its owners, chains never vanish
R04inv == \A a, b \in DOMAIN st.chains : st.chains[a].gw = st.chains[b].gw => a = b
R04 == [][/\ DOMAIN st.chains \subseteq DOMAIN st'.chains
          /\ (ok /\ q.t \in {"Register", "Upgrade"} => q.by = Gov /\ st'.chains[q.chain].gw = q.gw)
          /\ (ok /\ q.t \in {"Freeze", "Unfreeze"} => q.by = Admin)
          /\ (ok /\ q.t = "Register" => q.chain \notin DOMAIN st.chains)
          /\ (\A c \in DOMAIN st.chains : st'.chains[c].gw # st.chains[c].gw => q.t = "Upgrade" /\ q.chain = c)]_vars
===========================================================================
