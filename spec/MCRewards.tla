----------------------------- MODULE MCRewards ----------------------------
EXTENDS Rewards
CONSTANTS Pools, Workers0, Events, Pars, NewPars, BadPars, Amounts, BadCoins, Limits, MaxH, MaxAdds, MaxRecs, MaxPars, Scale, Sim
VARIABLES st, id, last
Gov == "gov"
Coin(d, n) == [d |-> d, n |-> n]
P(x) == [dur |-> x[1], rew |-> x[2], num |-> x[3], den |-> x[4]]
\* not part of the contract's state: how many parameter changes the explored history contains
Recs(s) == SumF([x \in DOMAIN s.tally |-> SumF(s.tally[x].part)])
Added(s) == s.held + SumF(s.paid)
CoinLists == {<<Coin("rew", n)>> : n \in Amounts} \cup BadCoins
AllReqs(s) ==
  (IF s.h < MaxH THEN [t : {"Advance"}, n : {1}] ELSE {}) \cup
  (IF Recs(s) < MaxRecs THEN [t : {"Record"}, by : Pools, event : Events, who : Workers0] ELSE {}) \cup
  [t : {"Record"}, by : {CHOOSE p \in Pools : TRUE}, event : {""}, who : Workers0] \cup
  [t : {"Add"}, by : {"rich"}, pool : Pools, coins : {c \in CoinLists : c \in BadCoins \/ Added(s) < MaxAdds}] \cup
  [t : {"Distribute"}, by : {"any"}, pool : Pools, limit : Limits] \cup
  (IF s.last.n < MaxPars THEN [t : {"Params"}, by : {Gov, "any", "pa", "rewards", "owner"}, par : {P(x) : x \in NewPars}] ELSE {}) \cup
  [t : {"Params"}, by : {Gov}, par : {P(x) : x \in BadPars}]
Pick(X) == RandomElement(X)
SimReq(s) ==
  LET k == Pick(1..30)
      pool == Pick(Pools)
      known == {x[2] : x \in {y \in DOMAIN s.ev : y[1] = pool}}
      fresh == Events \ known
      now == {x[2] : x \in {y \in DOMAIN s.ev : y[1] = pool /\ s.ev[y] >= EpochNo(s) - 1}}
      unseen == {w \in Workers0 : ~Has(s.tally, <<pool, EpochNo(s)>>) \/ w \notin DOMAIN s.tally[<<pool, EpochNo(s)>>].part}
  IN IF k <= 7 THEN [t |-> "Advance", n |-> Pick({1, 1, 2, 3, Min2(s.par.dur, 7)})]
     ELSE IF k <= 20 THEN [t |-> "Record", by |-> pool,
                           event |-> IF Pick(1..40) = 1 THEN "" ELSE IF fresh # {} /\ (now = {} \/ Pick(1..3) = 1) THEN Pick(fresh)
                                     ELSE IF now # {} /\ Pick(1..10) > 1 THEN Pick(now) ELSE Pick(Events),
                           who |-> IF unseen # {} /\ Pick(1..3) > 1 THEN Pick(unseen) ELSE Pick(Workers0)]
     ELSE IF k <= 23 THEN [t |-> "Add", by |-> "rich", pool |-> pool, coins |-> IF Pick(1..6) = 1 THEN Pick(BadCoins) ELSE <<Coin("rew", Pick(Amounts))>>]
     ELSE IF k <= 28 THEN [t |-> "Distribute", by |-> "any", pool |-> pool, limit |-> Pick(Limits)]
     ELSE [t |-> "Params", by |-> IF Pick(1..6) = 1 THEN Pick({"any", "pa", "rich", "rewards", "owner"}) ELSE Gov, par |-> P(IF Pick(1..6) = 1 THEN Pick(BadPars) ELSE Pick(NewPars))]
MCReqs(s) == IF Sim THEN {SimReq(s)} ELSE AllReqs(s)
MCObs(s) == [held |-> s.held, paid |-> [w \in {x \in DOMAIN s.paid : s.paid[x] > 0} |-> s.paid[w]]]
MCCfg(s) == s.cfg @@ [par |-> s.par, workers |-> Workers0, pools |-> Pools]
INSTANCE Driver WITH Inits <- {RewardsInit([gov |-> Gov, scale |-> Scale], P(x)) : x \in Pars}, Step <- RewardsStep, Reqs <- MCReqs, Obs <- MCObs, CfgOf <- MCCfg
---------------------------------------------------------------------------
q == last'.q
ok == last'.err = {}
Total(f) == SumF(f)
\* W01: conservation, per pool and in total; only proper deposits
W01inv == st.held = SumF(st.pool) /\ \A p \in DOMAIN st.pool : st.pool[p] >= 0
W01 == [][/\ (\A p \in Pools : Get(st'.pool, p, 0) # Get(st.pool, p, 0) => ok /\ q.t \in {"Add", "Distribute"} /\ q.pool = p)
          /\ (q.t = "Add" => (ok <=> Len(q.coins) = 1 /\ q.coins[1].d = "rew" /\ q.coins[1].n > 0))
          /\ (q.t = "Add" /\ ok => Get(st'.pool, q.pool, 0) = Get(st.pool, q.pool, 0) + q.coins[1].n)
          /\ (q.t = "Distribute" /\ ok => Get(st'.pool, q.pool, 0) + SumF(last'.out.pay) = Get(st.pool, q.pool, 0))
          /\ SumF(st'.paid) + st'.held = SumF(st.paid) + st.held + (IF q.t = "Add" /\ ok THEN q.coins[1].n ELSE 0)
          /\ (st'.paid # st.paid => q.t = "Distribute")]_vars
\* W02: consecutive epochs, settled ones only, no more than asked for, refused when there are none
W02 == [][/\ (\A p \in Pools : Get(st'.mark, p, -1) # Get(st.mark, p, -1) => q.t = "Distribute" /\ ok /\ q.pool = p)
          /\ (q.t = "Distribute" /\ ok =>
                LET a == Get(st.mark, q.pool, -1) b == st'.mark[q.pool] IN
                /\ b > a /\ b <= EpochNo(st) - 2 /\ (q.limit >= 0 => b - a <= q.limit)
                /\ (q.limit > b - a => b = EpochNo(st) - 2)
                /\ (q.limit = -1 => b - a = Min2(10, EpochNo(st) - 2 - a)))
          /\ (q.t = "Distribute" /\ EpochNo(st) - 2 <= Get(st.mark, q.pool, -1) => ~ok)
          /\ (q.t = "Distribute" /\ q.limit = 0 => ~ok)]_vars
\* W03: who is paid how much, for which epochs; and what counts as participation
W03 == [][/\ (q.t = "Distribute" /\ ok =>
                \A w \in Workers0 :
                  Get(last'.out.pay, w, 0) =
                    SumF([e \in Get(st.mark, q.pool, -1) + 1..st'.mark[q.pool] |->
                            IF ~Has(st.tally, <<q.pool, e>>) THEN 0
                            ELSE LET t == st.tally[<<q.pool, e>>]
                                     Enough(x) == Has(t.part, x) /\ t.part[x] <= t.events /\ t.part[x] * t.par.den >= t.events * t.par.num
                                 IN IF Enough(w) THEN t.par.rew \div Cardinality({x \in Workers0 : Enough(x)}) ELSE 0]))
          /\ (q.t = "Record" /\ ok =>
                LET x == <<q.by, q.event>> IN
                /\ st'.ev[x] = IF Has(st.ev, x) THEN st.ev[x] ELSE EpochNo(st)
                /\ \A y \in DOMAIN st'.tally : y # <<q.by, st'.ev[x]>> => Has(st.tally, y) /\ st'.tally[y] = st.tally[y]
                /\ LET n == st'.tally[<<q.by, st'.ev[x]>>] IN
                   /\ n.events = Cardinality({y \in DOMAIN st'.ev : y[1] = q.by /\ st'.ev[y] = st'.ev[x]})
                   /\ n.par = IF Has(st.tally, <<q.by, st'.ev[x]>>) THEN st.tally[<<q.by, st'.ev[x]>>].par ELSE st.par)
          /\ (st'.tally # st.tally \/ st'.ev # st.ev => q.t = "Record" /\ ok)]_vars
\* W04: the epoch clock
W04 == [][/\ EpochNo(st') >= EpochNo(st)
          /\ (EpochNo(st') # EpochNo(st) => q.t = "Advance" \/ (q.t = "Params" /\ ok))
          /\ (q.t = "Advance" => \/ EpochNo(st') = EpochNo(st) /\ EpochStart(st') = EpochStart(st) /\ st'.h - EpochStart(st) < st.par.dur
                                 \/ EpochStart(st') = EpochStart(st) + (EpochNo(st') - EpochNo(st)) * st.par.dur /\ st'.h - EpochStart(st') < st.par.dur)
          /\ (q.t = "Params" /\ ok => EpochNo(st') = EpochNo(st) + (IF st.h - EpochStart(st) >= q.par.dur THEN 1 ELSE 0)
                                      /\ EpochStart(st') = (IF st.h - EpochStart(st) >= q.par.dur THEN st.h ELSE EpochStart(st)))
          /\ (q.t = "Params" /\ ok => q.by = Gov /\ q.par.num <= q.par.den)
          /\ (st'.par # st.par \/ st'.last # st.last => q.t = "Params" /\ ok)]_vars
===========================================================================
