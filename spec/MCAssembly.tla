---------------------------- MODULE MCAssembly ----------------------------
EXTENDS Assembly
CONSTANTS Cfgs, Keys, Ws, Msgs, MaxMembers, MaxMsgs, Sids, Forms, Sim
VARIABLES st, id, last
KeysOf(s) == {k \in Keys : (k \in {"d" \o ToString(n) : n \in 1..33}) = (s.cfg.kt = "ed25519")}
FormsOf(s) == IF s.cfg.kt = "ecdsa" THEN Forms ELSE Forms \ {"alt"}
Orders(K, n) == {f \in [1..n -> K] : \A i, j \in 1..n : i # j => f[i] # f[j]}
Answers(s, n) == {[k \in 1..n |-> [k |-> o[k], w |-> w[k], signed |-> g[k]]] : o \in Orders(KeysOf(s), n), w \in [1..n -> Ws], g \in [1..n -> FormsOf(s) \cup {"no"}]}
Total(m) == SumF([k \in 1..Len(m) |-> m[k].w])
AllReqs(s) ==
  IF s.sess = <<>> THEN [t : {"Open"}, sid : Sids, msgs : SeqsFromTo(Msgs, 1, MaxMsgs)] \cup {[t |-> "Ask", sid |-> "1", members |-> <<>>, thr |-> 1, done |-> FALSE]}
  ELSE [t : {"Open"}, sid : DOMAIN s.sess, msgs : {<<CHOOSE m \in Msgs : TRUE>>}]
       \cup UNION {{r \in [t : {"Ask"}, sid : DOMAIN s.sess, members : {m}, thr : 1..Total(m), done : BOOLEAN] : Consistent(r)} :
                   m \in UNION {Answers(s, n) : n \in 1..MaxMembers}}
Pick(S) == RandomElement(S)
RECURSIVE Shuffle(_, _)
Shuffle(S, n) == IF n = 0 \/ S = {} THEN <<>> ELSE LET x == Pick(S) IN <<x>> \o Shuffle(S \ {x}, n - 1)
SimReq(s) ==
  LET n == Pick(1..MaxMembers)
      ks == Shuffle(KeysOf(s), n)
      many == Pick(1..4)
      same == Pick(1..5) = 1
      w0 == Pick(Ws)
      mem == [k \in 1..Len(ks) |-> [k |-> ks[k], w |-> IF same THEN w0 ELSE Pick(Ws), signed |-> IF Pick(1..4) <= many THEN Pick(FormsOf(s)) ELSE "no"]]
      got == SignedWeight(mem)
      thr == LET x == Pick(1..6) IN IF x = 1 THEN Pick(1..Total(mem)) ELSE IF x = 2 \/ got = 0 THEN Max2(1, got) ELSE IF x = 3 THEN got + 1 ELSE Pick(1..got)
      sid == IF s.sess # <<>> /\ Pick(1..25) > 1 THEN Pick(DOMAIN s.sess) ELSE Pick(Sids)
  IN IF s.sess = <<>> \/ Pick(1..6) = 1 THEN [t |-> "Open", sid |-> Pick(Sids), msgs |-> [j \in 1..Pick(1..MaxMsgs) |-> Pick(Msgs)]]
     ELSE [t |-> "Ask", sid |-> sid, members |-> mem, thr |-> thr, done |-> got >= thr /\ Pick(1..8) > 1]
MCReqs(s) == IF Sim THEN {SimReq(s)} ELSE AllReqs(s)
\* every session that was opened still shows its own batch
MCObs(s) == [batches |-> [x \in DOMAIN s.sess |-> MapSeq(s.sess[x], MsgId)]]
MCCfg(s) == [cfg |-> s.cfg, out |-> Msgs]
INSTANCE Driver WITH Inits <- {AssemblyInit(c) : c \in Cfgs}, Step <- AssemblyStep, Reqs <- MCReqs, Obs <- MCObs, CfgOf <- MCCfg
---------------------------------------------------------------------------
q == last'.q
o == last'.out
\* P02: completed only once the session is, and then with everything; asking changes nothing; what a session is about stays
P02a == [][/\ (q.t = "Ask" /\ last'.err = {} =>
                 /\ (o.proof # <<>> <=> q.done) /\ st' = st
                 /\ (q.done => /\ SignedWeight(q.members) >= o.proof[1].thr /\ Cardinality(o.proof[1].members) = Len(q.members)))
           /\ \A x \in DOMAIN st.sess : st'.sess[x] = st.sess[x]]_vars
===========================================================================
