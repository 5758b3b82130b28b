------------------------------ MODULE MCDaemon ------------------------------
EXTENDS Daemon
CONSTANTS Marks,      \* sequences of handlers that a block may concern
          HSets, MaxBlocks, MaxKeys, Kinds, Refusing, Sim
VARIABLES st, id, last
Pick(S) == RandomElement(S)
Marked(s, h, a, b) == {x \in a..b : \E i \in 1..Len(s.chain[x]) : s.chain[x][i] = h}
\* a failing signer is only predictable when it fails at its first event
Fails_at(s, k) == "signer" \in s.r.hs /\ Marked(s, "signer", s.r.at["signer"], s.tip) = {k}
Troubles(s) == IF ~s.r.on \/ s.down \/ s.refused THEN {}
               ELSE {x \in [t : {"Trouble"}, kind : Kinds, k : s.r.next..s.tip] : x.kind # "fail" \/ Fails_at(s, x.k)}
\* a start is only predictable when nothing can be lost while it catches up
Starts(s) == IF s.r.on THEN {}
             ELSE {x \in [t : {"Start"}, hs : HSets] : ~s.refused \/ ~Any_(Follow(Begin(s, x.hs)).pend)}
AllReqs(s) ==
  (IF Len(s.chain) < MaxBlocks THEN [t : {"Block"}, ev : Marks, exp : {Expired(s)}] ELSE {}) \cup
  [t : {"Tip"}, n : (Max2(1, s.late)..Len(s.chain)) \ {s.tip}] \cup
  [t : {"Down"}, x : {~s.down}] \cup
  (IF Refusing THEN [t : {"Refuse"}, x : {~s.refused}] ELSE {}) \cup
  (IF s.r.on THEN [t : {"Wait"}, long : BOOLEAN] \cup {[t |-> "Stop"], [t |-> "Crash"]} ELSE IF s.keygens < MaxKeys \/ s.key THEN Starts(s) ELSE {}) \cup
  (IF s.keygens < MaxKeys \/ s.key THEN Troubles(s) ELSE {})
SimReq(s) ==
  LET k == Pick(1..20)
      grow == IF Len(s.chain) < MaxBlocks THEN [t |-> "Block", ev |-> Pick(Marks), exp |-> Expired(s)] ELSE [t |-> "Tip", n |-> Len(s.chain)]
      go == IF s.r.on THEN [t |-> "Wait", long |-> Pick(1..3) = 1]
            ELSE IF Starts(s) = {} THEN [t |-> "Refuse", x |-> FALSE] ELSE Pick(Starts(s))
  IN CASE k <= 6 -> grow
       [] k <= 9 -> [t |-> "Tip", n |-> IF Pick(1..4) = 1 THEN Pick(Max2(1, s.late)..Len(s.chain)) ELSE Len(s.chain)]
       [] k = 10 -> [t |-> "Down", x |-> Pick(1..4) = 1]
       [] k = 11 /\ Refusing -> [t |-> "Refuse", x |-> Pick(1..4) = 1]
       [] k = 12 /\ s.r.on -> IF Pick(1..2) = 1 THEN [t |-> "Stop"] ELSE [t |-> "Crash"]
       [] k \in 13..15 /\ Troubles(s) # {} -> Pick(Troubles(s))
       [] OTHER -> go
MCReqs(s) == IF Sim THEN {SimReq(s)} ELSE AllReqs(s)
MCObs(s) == [on |-> s.r.on, file |-> [h \in All |-> Get(s.file, h, 0)], key |-> s.key, keygens |-> s.keygens]
MCCfg(s) == s.cfg
INSTANCE Driver WITH Inits <- {DaemonInit([lates |-> Sim])}, Step <- DaemonStep, Reqs <- MCReqs, Obs <- MCObs, CfgOf <- MCCfg
---------------------------------------------------------------------------
q == last'.q
o == last'.out
Sane == /\ \A h \in DOMAIN st.file : st.file[h] <= Len(st.chain)
        /\ (st.r.on => \A h \in DOMAIN st.file : Has(st.r.done, h) /\ st.r.done[h] >= st.file[h])
\* what was, or waits to be, answered by h up to a block: nothing is skipped, and nothing done twice, as long as it does not crash
Sent(h) == IF q.t \in {"Start", "Wait", "Stop", "Trouble"} THEN o.sent[h] ELSE <<>>
Wait_(s, h) == IF s.r.on /\ h \in s.r.hs THEN s.r.pend[h] ELSE <<>>
Completed(s, h) == IF s.r.on THEN Get(s.r.done, h, 0) ELSE Get(s.file, h, 0)
\* A04: between a block completed and the next one completed lies exactly what the blocks in between call for
A04 == [][/\ (((q.t \in {"Wait", "Stop"}) \/ (q.t = "Trouble" /\ q.kind # "crash")) /\ ~st.refused) =>
                \A h \in st.r.hs :
                  LET a == IF Completed(st, h) > 0 THEN Completed(st, h) + 1 ELSE st.r.at[h]
                      b == Completed(st', h)
                  IN Sent(h) \o Wait_(st', h) = Wait_(st, h) \o Events(st.chain, h, a, b)
          /\ (q.t = "Start" /\ st'.r.on) =>
                \A h \in q.hs : Has(st.file, h) => o.sent[h] = Events(st.chain, h, st.file[h] + 1, Completed(st', h))
          \* what is persisted is complete; it is persisted whenever the daemon ends
          /\ \A h \in DOMAIN st.file : Has(st'.file, h) /\ st'.file[h] >= st.file[h]
          /\ (st.r.on /\ ~st'.r.on /\ q.t # "Crash" /\ ~(q.t = "Trouble" /\ q.kind = "crash") => \A h \in DOMAIN st.r.done : st'.file[h] >= st.r.done[h])
          \* the key is made once, if it does not crash
          /\ (st'.keygens > st.keygens => ~st.key)]_vars
=============================================================================
