------------------------------ MODULE Router ------------------------------
(* contracts/connection-router: the chain registry and the message router. *)
EXTENDS Util
\* A state: cfg = [admin, gov, nexus]; chains: registered chain -> [gw, fin, fout]
\* (fin / fout: frozen for messages from / to the chain). A message is a record with at least
\* c (claimed source chain), i (id on the source chain), d (destination chain).

RouterInit(cfg) == [cfg |-> cfg, chains |-> <<>>]

ChainOf(s, g) == {c \in DOMAIN s.chains : s.chains[c].gw = g}
DirIn(d)  == d \in {"in", "both"}
DirOut(d) == d \in {"out", "both"}

RRegister(s, q) ==
  LET e == G(q.by # s.cfg.gov, "notGov") \cup G(ChainOf(s, q.gw) # {}, "gwTaken") \cup G(Has(s.chains, q.chain), "chainExists")
  IN IF e # {} THEN Fail(s, e)
     ELSE Ok([s EXCEPT !.chains = Put(@, q.chain, [gw |-> q.gw, fin |-> FALSE, fout |-> FALSE])],
             [sent |-> <<>>, ev |-> <<<<"chain_registered", q.chain>>>>])

RUpgrade(s, q) ==
  LET e == G(q.by # s.cfg.gov, "notGov") \cup G(ChainOf(s, q.gw) # {}, "gwTaken") \cup G(~Has(s.chains, q.chain), "noChain")
  IN IF e # {} THEN Fail(s, e)
     ELSE Ok([s EXCEPT !.chains[q.chain].gw = q.gw], [sent |-> <<>>, ev |-> <<<<"gateway_upgraded", q.chain>>>>])

RFreeze(s, q) ==
  LET e == G(q.by # s.cfg.admin, "notAdmin") \cup G(~Has(s.chains, q.chain), "noChain")
  IN IF e # {} THEN Fail(s, e)
     ELSE Ok([s EXCEPT !.chains[q.chain].fin = @ \/ DirIn(q.dir), !.chains[q.chain].fout = @ \/ DirOut(q.dir)],
             [sent |-> <<>>, ev |-> <<<<"chain_frozen", q.chain>>>>])

RUnfreeze(s, q) ==
  LET e == G(q.by # s.cfg.admin, "notAdmin") \cup G(~Has(s.chains, q.chain), "noChain")
  IN IF e # {} THEN Fail(s, e)
     ELSE Ok([s EXCEPT !.chains[q.chain].fin = @ /\ ~DirIn(q.dir), !.chains[q.chain].fout = @ /\ ~DirOut(q.dir)],
             [sent |-> <<>>, ev |-> <<<<"chain_unfrozen", q.chain>>>>])

RTarget(s, d) == IF Has(s.chains, d) THEN s.chains[d].gw ELSE s.cfg.nexus

RRouteErr(s, q) ==
  LET nexus == q.by = s.cfg.nexus
      src == ChainOf(s, q.by)
      own == CHOOSE c \in src : TRUE
  IN (IF nexus THEN {}
      ELSE IF src = {} THEN {"notGateway"}
      ELSE G(s.chains[own].fin, "srcFrozen") \cup G(\E i \in 1..Len(q.msgs) : q.msgs[i].c # own, "wrongSource"))
     \cup G(\E i \in 1..Len(q.msgs) : Has(s.chains, q.msgs[i].d) /\ s.chains[q.msgs[i].d].fout, "dstFrozen")
     \cup G(nexus /\ \E i \in 1..Len(q.msgs) : ~Has(s.chains, q.msgs[i].d), "nexusNoChain")

RRoute(s, q) ==
  LET e == RRouteErr(s, q) IN
  IF e # {} THEN Fail(s, e)
  ELSE LET tos == {RTarget(s, q.msgs[i].d) : i \in 1..Len(q.msgs)} IN
       \* per receiving gateway, what it is handed in this transaction, in order (in however many calls)
       Ok(s, [sent |-> [g \in tos |-> SelectSeq(q.msgs, LAMBDA m : RTarget(s, m.d) = g)],
              ev |-> [i \in 1..Len(q.msgs) |-> <<"message_routed", q.msgs[i]>>]])

RouterStep(s, q) ==
  CASE q.t = "Register" -> RRegister(s, q)
    [] q.t = "Upgrade"  -> RUpgrade(s, q)
    [] q.t = "Freeze"   -> RFreeze(s, q)
    [] q.t = "Unfreeze" -> RUnfreeze(s, q)
    [] q.t = "Route"    -> RRoute(s, q)

\* what GetChainInfo reports for every chain of a universe
RouterObs(s, Universe) == [c \in Universe |-> IF Has(s.chains, c) THEN s.chains[c] ELSE [none |-> TRUE]]
===========================================================================
