------------------------------ MODULE MCProver ------------------------------
EXTENDS Prover
CONSTANTS Cfgs, Workers, Keys, Msgs, Actives, MaxIds, MaxH, MaxSess, Forms, Toggles, Pre, Sim
VARIABLES st, id, last
\* the keys: name -> type is fixed by the first letter
Ty(k) == IF k \in {"d" \o ToString(n) : n \in 1..33} THEN "ed25519" ELSE "ecdsa"
Ids == {MsgId(m) : m \in Msgs}
OpsSeen(s) == {OpsOf(x[1]) : x \in {s.cur, s.nxt} \ {<<>>}} \cup s.conf
\* an established prover: everybody active with a key, everything delivered but number 7
Best(kt, w) == LET n == CHOOSE n \in 1..33 : w = "wk" \o ToString(n) IN (IF kt = "ecdsa" THEN "e" ELSE "d") \o ToString(n)
Start0(c) == IF Pre = "no" THEN ProverInit(c)
             ELSE [ProverInit(c) EXCEPT !.keys = [x \in Workers \X {c.kt} |-> Best(x[2], x[1])],
                                        !.active = IF Pre = "two" THEN {"wk1", "wk2"} ELSE Workers, !.out = {m \in Msgs : m.i # 7}]
AllReqs(s) ==
  (IF s.h < MaxH THEN [t : {"Advance"}, n : {1}] ELSE {}) \cup
  [t : {"SetActive"}, who : Actives] \cup
  [t : {"Allow"}, on : Toggles] \cup
  {[t |-> "RegisterKey", by |-> w, ty |-> Ty(k), key |-> k] : w \in Workers, k \in Keys} \cup
  [t : {"SetConf"}, ops : OpsSeen(s) \ s.conf] \cup
  [t : {"Deliver"}, m : Msgs \ s.out] \cup
  (IF Len(s.sess) < MaxSess THEN [t : {"Construct"}, ids : SeqsUpTo(Ids, MaxIds)] \cup [t : {"Update"}]
   ELSE IF s.cur = <<>> THEN [t : {"Update"}] ELSE {}) \cup
  [t : {"Confirm"}] \cup
  UNION {[t : {"Sign"}, session : {n}, by : Workers, x : Forms] : n \in 1..Len(s.sess)}
Pick(S) == RandomElement(S)
SimReq(s) ==
  LET k == Pick(1..24)
      n == IF s.sess = <<>> THEN 1 ELSE IF Pick(1..20) = 1 THEN Pick(1..Len(s.sess) + 1) ELSE Pick(Max2(1, Len(s.sess) - 3)..Len(s.sess))
      left == IF n \in DOMAIN s.sess THEN DOMAIN s.sess[n].set.who \ DOMAIN s.sess[n].sigs ELSE {}
      good == {MsgId(m) : m \in {x \in s.out : x.d = s.cfg.chain /\ x.v # 9}}
      pool == IF good = {} \/ Pick(1..12) = 1 THEN Ids ELSE good
  IN IF k = 1 THEN [t |-> "Advance", n |-> Pick(1..3)]
     ELSE IF k = 2 \/ s.active = {} THEN [t |-> "SetActive", who |-> IF Pick(1..3) = 1 THEN Pick(Actives)
             ELSE LET w == Pick(Workers) IN IF w \in s.active /\ Cardinality(s.active) > 1 THEN s.active \ {w} ELSE s.active \cup {w}]
     ELSE IF k = 3 \/ \E w \in s.active : ~Has(s.keys, <<w, s.cfg.kt>>)
          THEN LET y == Pick(Keys)
                   no == {w \in s.active : ~Has(s.keys, <<w, s.cfg.kt>>)}
               IN IF no # {} /\ Pick(1..2) = 1
                  THEN LET z == Pick({x \in Keys : Ty(x) = s.cfg.kt}) IN [t |-> "RegisterKey", by |-> Pick(no), ty |-> Ty(z), key |-> z]
                  ELSE [t |-> "RegisterKey", by |-> Pick(Workers), ty |-> Ty(y), key |-> y]
     ELSE IF k = 4 THEN [t |-> "Allow", on |-> Pick(1..6) > 1 \/ ~s.allowed]
     ELSE IF k <= 6 /\ s.nxt # <<>> THEN [t |-> "SetConf", ops |-> IF Pick(1..4) > 1 THEN OpsOf(s.nxt[1]) ELSE Pick(OpsSeen(s))]
     ELSE IF k = 7 /\ CanForm(s) = {} THEN [t |-> "SetConf", ops |-> OpsOf(Formed(s))]
     ELSE IF k <= 9 /\ s.out # Msgs THEN [t |-> "Deliver", m |-> Pick(Msgs \ s.out)]
     ELSE IF k <= 12 THEN [t |-> "Construct", ids |-> [j \in 1..Pick(0..MaxIds) |-> Pick(pool)]]
     ELSE IF k = 13 \/ s.cur = <<>> THEN [t |-> "Update"]
     ELSE IF k <= 15 THEN [t |-> "Confirm"]
     ELSE [t |-> "Sign", session |-> n, by |-> IF left # {} /\ Pick(1..8) > 1 THEN Pick(left) ELSE Pick(Workers),
           x |-> IF Pick(1..4) = 1 THEN Pick(Forms) ELSE "ok"]
MCReqs(s) == IF Sim THEN {SimReq(s)} ELSE AllReqs(s)
MCObs(s) == [cur |-> s.cur, proofs |-> [n \in DOMAIN s.sess |-> ProofObs(s, n)]]
MCCfg(s) == [cfg |-> s.cfg, keys |-> {<<x[1], s.keys[x]>> : x \in DOMAIN s.keys}, active |-> s.active, out |-> s.out]
INSTANCE Driver WITH Inits <- {Start0(c) : c \in Cfgs}, Step <- ProverStep, Reqs <- MCReqs, Obs <- MCObs, CfgOf <- MCCfg
---------------------------------------------------------------------------
q == last'.q
ok == last'.err = {}
o == last'.out
Opens == q.t \in {"Construct", "Update"} /\ ok /\ o.session # <<>>
\* P01
P01 == [][/\ (q.t = "Construct" /\ ok =>
               /\ \A k \in 1..Len(q.ids) : \E m \in st.out : MsgId(m) = q.ids[k] /\ m.d = st.cfg.chain
               /\ o.session = <<Len(st.sess) + 1>> /\ o.set = st.cur
               /\ Bag(MapSeq(o.content.msgs, MsgId)) = Bag(q.ids)
               /\ \A k \in 1..Len(o.content.msgs) : o.content.msgs[k] \in st.out
               /\ Len(st'.sess) = Len(st.sess) + 1)
          /\ (Len(st'.sess) # Len(st.sess) => Opens)
          /\ (\A b \in DOMAIN st.batches : b \in DOMAIN st'.batches /\ st'.batches[b] = st.batches[b])]_vars
\* P02: the numbers behind "enough", and that what a session is about never changes
P02inv == \A n \in DOMAIN st.sess : LET x == st.sess[n] IN
             /\ DOMAIN x.sigs \subseteq DOMAIN x.set.who
             /\ x.done <=> Cardinality(DOMAIN x.sigs) >= x.set.thr
             /\ Has(st.batches, x.batch)
P02 == [][\A n \in DOMAIN st.sess : /\ st'.sess[n].batch = st.sess[n].batch /\ st'.sess[n].set = st.sess[n].set
                                    /\ (st.sess[n].done => st'.sess[n] = st.sess[n])]_vars
\* P03
P03inv == /\ st.nxt # <<>> => \E n \in DOMAIN st.sess : st.sess[n].set = st.cur[1] /\ st.batches[st.sess[n].batch].ws = st.nxt
          /\ st.cur # <<>> => st.cur[1] \in st.regs
P03 == [][/\ (st'.cur # st.cur =>
               \/ q.t = "Update" /\ st.cur = <<>>
               \/ q.t = "Confirm" /\ st'.cur = st.nxt /\ OpsOf(st.nxt[1]) \in st.conf /\ st'.nxt = <<>>)
          /\ (q.t = "Confirm" /\ ok => o.registered = st.nxt)
          /\ (st.nxt # <<>> /\ st'.nxt # st.nxt =>
               \/ q.t = "Confirm" /\ ok
               \/ st'.nxt # <<>> /\ st'.nxt[1].who = st.nxt[1].who /\ st'.nxt[1].thr = st.nxt[1].thr)
          /\ (st.nxt = <<>> /\ st'.nxt # <<>> => st.cur # <<>> /\ Opens)]_vars
\* P04: what is formed, and when
Mirrors(set) == /\ DOMAIN set.who = st.active /\ \A w \in st.active : set.who[w] = st.keys[<<w, st.cfg.kt>>]
                /\ set.thr * st.cfg.thr[2] >= Cardinality(st.active) * st.cfg.thr[1]
                /\ (set.thr - 1) * st.cfg.thr[2] < Cardinality(st.active) * st.cfg.thr[1]
Changed == LET a == {w \in st.active : w \notin DOMAIN st.cur[1].who \/ st.cur[1].who[w] # st.keys[<<w, st.cfg.kt>>]}
               b == {w \in DOMAIN st.cur[1].who : w \notin st.active \/ st.cur[1].who[w] # st.keys[<<w, st.cfg.kt>>]}
           IN Cardinality(a) + Cardinality(b)
P04 == [][/\ (q.t = "Update" /\ ok /\ st.cur = <<>> => Mirrors(st'.cur[1]) /\ o.registered = st'.cur)
          /\ (q.t = "Update" /\ ok /\ st.cur # <<>> => Changed > st.cfg.diff /\ o.content.ws = st'.nxt /\ Mirrors(st'.nxt[1]))
          /\ (q.t = "Update" /\ st.cur # <<>> /\ st.active # {} /\ (\A w \in st.active : Has(st.keys, <<w, st.cfg.kt>>))
                /\ Changed <= st.cfg.diff => ~ok)
          /\ (q.t = "Construct" /\ ok /\ [ids |-> Bag(q.ids), ws |-> <<>>] \notin DOMAIN st.batches =>
                IF Changed > st.cfg.diff THEN o.content.ws = st'.nxt /\ Mirrors(st'.nxt[1]) ELSE o.content.ws = <<>>)]_vars
\* E02: the current set can always be signed with; a finished proof was signed by the set of its time
E02 == [][Opens => st'.sess[Len(st'.sess)].set = st.cur[1] /\ st.cur[1] \in st.regs]_vars
===========================================================================
