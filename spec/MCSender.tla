------------------------------ MODULE MCSender ------------------------------
EXTENDS Sender
CONSTANTS Cfgs, Gases, MaxMsgs, Lags, Cmds, MaxSeq, Sim
VARIABLES st, id, last
Pick(S) == RandomElement(S)
Hows == {"ok", "down", "none"}
Takes == {"ok", "down", "none"}
Way == [how : Hows, sign : {TRUE}, take : {"ok"}, lag : {0}, code : {0}] \cup
       [how : {"ok"}, sign : BOOLEAN, take : Takes, lag : {0}, code : {0}] \cup
       [how : {"ok"}, sign : {TRUE}, take : {"ok"}, lag : Lags, code : {0, 5}]
Lists == SeqsFromTo(Gases, 1, MaxMsgs)
Along(g) == [i \in 1..Len(g) |-> i]
Sends(s, gas, ways) == {[t |-> "Send", gas |-> g, list |-> Along(g), how |-> w.how, sign |-> w.sign, take |-> w.take, lag |-> w.lag, code |-> w.code] : g \in gas, w \in ways}
Good == {w \in Way : w.how = "ok" /\ w.sign /\ w.take = "ok" /\ w.code = 0 /\ w.lag = 0}
Some == CHOOSE g \in Gases : \A h \in Gases : h <= g
Commands(s, gas) == {[t |-> "Cmd", c |-> c, gas |-> g, how |-> w.how, sign |-> w.sign, take |-> w.take, lag |-> w.lag, code |-> w.code] :
                     c \in Cmds, g \in gas, w \in Way}
Repeats(s) == {[t |-> "Send", gas |-> g, list |-> l, how |-> w.how, sign |-> w.sign, take |-> w.take, lag |-> w.lag, code |-> w.code] :
              g \in {x \in Lists : Len(x) = 2}, l \in {<<1, 1, 2>>, <<2, 1, 2, 2>>}, w \in Good}
AllReqs(s) ==
  [t : {"Account"}, x : {"ok", "down", "unknown", "none", "bad"}] \cup {[t |-> "Connect"]} \cup
  (IF s.seq < MaxSeq THEN {[t |-> "Other"]} \cup (IF s.keygens < 2 THEN Commands(s, {Some}) ELSE {}) ELSE {}) \cup
  (IF s.on THEN {[t |-> "Est", gas |-> g, list |-> Along(g), how |-> h] : g \in Lists, h \in Hows} \cup (IF s.seq < MaxSeq THEN Sends(s, Lists, Good) \cup Repeats(s) \cup Sends(s, {<<Some>>}, Way) ELSE {}) ELSE {})
GasList == [i \in 1..Pick({1, 2, 3, MaxMsgs}) |-> Pick(Gases)]
Batch(g) == IF Pick(1..3) # 1 THEN Along(g) ELSE [i \in 1..Pick(1..MaxMsgs) |-> Pick(1..Len(g))]
SimReq(s) ==
  LET k == Pick(1..24) g == GasList w == IF Pick(1..3) = 1 THEN Pick(Way) ELSE [how |-> "ok", sign |-> TRUE, take |-> "ok", lag |-> Pick(Lags), code |-> 0] IN
  CASE k <= 2 -> [t |-> "Account", x |-> IF s.account # "ok" THEN "ok" ELSE Pick({"ok", "down", "unknown", "none", "bad"})]
    [] k = 3 -> [t |-> "Other"]
    [] k <= 8 -> [t |-> "Cmd", c |-> Pick(Cmds), gas |-> Pick(Gases), how |-> w.how, sign |-> w.sign, take |-> w.take, lag |-> w.lag, code |-> w.code]
    [] OTHER -> IF ~s.on \/ k = 9 THEN [t |-> "Connect"]
                ELSE IF k <= 13 THEN [t |-> "Est", gas |-> g, list |-> Batch(g), how |-> w.how]
                ELSE [t |-> "Send", gas |-> g, list |-> Batch(g), how |-> w.how, sign |-> w.sign, take |-> w.take, lag |-> w.lag, code |-> w.code]
MCReqs(s) == IF Sim THEN {SimReq(s)} ELSE AllReqs(s)
MCObs(s) == [seq |-> s.seq, keygens |-> s.keygens]
MCCfg(s) == s.cfg
INSTANCE Driver WITH Inits <- {SenderInit(c) : c \in Cfgs}, Step <- SenderStep, Reqs <- MCReqs, Obs <- MCObs, CfgOf <- MCCfg
---------------------------------------------------------------------------
q == last'.q
o == last'.out
Sane == st.seq >= st.cfg.seq /\ (st.on => st.link <= st.seq)
\* A05: a transaction is sent once and carries the messages in order, the sequence that is due, and gas and a fee that pay for it
A05 == [][/\ (q.t \in {"Send", "Cmd"} =>
               /\ Len(o.got) <= 1
               /\ st'.seq = st.seq + Len(o.got)
               /\ \A i \in 1..Len(o.got) :
                    LET tx == o.got[i] g == IF q.t = "Send" THEN GasOf(q) ELSE q.gas IN
                    /\ tx.seq = st.seq
                    /\ tx.gas * st.cfg.adj[2] <= g * st.cfg.adj[1] /\ (tx.gas + 1) * st.cfg.adj[2] > g * st.cfg.adj[1]
                    /\ tx.fee * st.cfg.price[2] >= tx.gas * st.cfg.price[1]
                    /\ (tx.fee > 0 => (tx.fee - 1) * st.cfg.price[2] < tx.gas * st.cfg.price[1])
                    /\ (q.t = "Send" => tx.msgs = q.list)
                    /\ (q.t = "Cmd" => Len(tx.msgs) = 1)
               \* it counts as done only if it is included and executed
               /\ (o.r = "ok" /\ ~(q.t = "Cmd" /\ q.c.t = "Address") => Len(o.got) = 1 /\ q.code = 0 /\ q.lag <= st.cfg.retries))
          \* and as long as nobody else uses the account and nothing fails the next one is due
          /\ (q.t = "Send" /\ o.r = "ok" => st'.link = st'.seq)]_vars
=============================================================================
