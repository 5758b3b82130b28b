---------------------------- MODULE MCRegistry ----------------------------
EXTENDS Registry
CONSTANTS Svcs, Kinds, Ws, Chains, CoinLists, Steps, Times, MaxHeld, Pre, Callers, MaxWs, MaxCs, Scale, Sim
VARIABLES st, id, last
Gov == "gov"
Coin(d, n) == [d |-> d, n |-> n]
V(x) == [min |-> x[1], max |-> x[2], bond |-> x[3], denom |-> x[4], days |-> x[5], about |-> x[6]]
KindOf(n) == V(IF n = 1 THEN <<1, 1, 5, "rew", 1, "one">> ELSE IF n = 2 THEN <<0, -1, 0, "rew", 0, "">>
               ELSE IF n = 3 THEN <<3, 5, 7, "other", 2, "three">> ELSE IF n = 4 THEN <<65535, 65535, 3, "rew", 3, "four">>
               ELSE <<1, 1, 1, "rew", 300, "five">>)
Held(s) == SumF(s.held)
AllReqs(s) ==
  (LET later == {x - s.t : x \in {y \in Times : y > s.t}} IN IF later = {} THEN {} ELSE [t : {"Advance"}, n : {Min(later)}]) \cup
  (IF Pre THEN {} ELSE [t : {"Register"}, by : {Gov, "anyone"}, svc : Svcs, is : {KindOf(n) : n \in Kinds}]) \cup
  [t : {"Authorize", "Unauthorize"}, by : Callers, svc : Svcs, ws : SeqsFromTo(Ws, 1, MaxWs)] \cup
  [t : {"Bond"}, by : Ws, svc : Svcs, coins : {c \in CoinLists : Held(s) < MaxHeld \/ Len(c) # 1}] \cup
  [t : {"Unbond", "Claim"}, by : Ws, svc : Svcs] \cup
  [t : {"Declare"}, by : Ws, svc : Svcs, chains : SeqsFromTo(Chains, 1, MaxCs)]
Pick(X) == RandomElement(X)
SimReq(s) ==
  LET k == Pick(1..24)
      svc == IF DOMAIN s.svc # {} /\ Pick(1..20) > 1 THEN Pick(DOMAIN s.svc) ELSE Pick(Svcs)
      by == Pick(Ws)
      denom == IF Has(s.svc, svc) THEN s.svc[svc].denom ELSE "rew"
      \* somebody who has something to withdraw
      un == {x \in DOMAIN s.wk : s.wk[x].b = "unbonding"}
      bo == {x \in DOMAIN s.wk : s.wk[x].b = "bonded"}
  IN IF k <= 2 THEN [t |-> "Register", by |-> IF Pick(1..5) = 1 THEN by ELSE Gov, svc |-> Pick(Svcs), is |-> KindOf(Pick(Kinds))]
     ELSE IF k <= 5 THEN [t |-> "Advance", n |-> Pick({x \in Steps : s.t < 1000000000 \/ x < 1000000})]
     ELSE IF k <= 9 THEN [t |-> IF Pick(1..3) = 1 THEN "Unauthorize" ELSE "Authorize", by |-> IF Pick(1..8) = 1 THEN Pick(Callers) ELSE Gov,
                          svc |-> svc, ws |-> Pick([1..Pick(0..3) -> Ws])]
     ELSE IF k <= 14 THEN [t |-> "Bond", by |-> by, svc |-> svc, coins |-> IF Pick(1..5) = 1 THEN Pick(CoinLists) ELSE <<Coin(denom, Pick({1, 2, 5, 7, 100}))>>]
     ELSE IF k <= 16 THEN (IF bo # {} /\ Pick(1..4) > 1 THEN LET x == Pick(bo) IN [t |-> "Unbond", by |-> x[2], svc |-> x[1]] ELSE [t |-> "Unbond", by |-> by, svc |-> svc])
     ELSE IF k <= 20 THEN (IF un # {} /\ Pick(1..6) > 1 THEN LET x == Pick(un) IN [t |-> "Claim", by |-> x[2], svc |-> x[1]] ELSE [t |-> "Claim", by |-> by, svc |-> svc])
     ELSE [t |-> "Declare", by |-> by, svc |-> svc, chains |-> Pick([1..Pick(0..3) -> Chains])]
MCReqs(s) == IF Sim THEN {SimReq(s)} ELSE AllReqs(s)
Nonzero(f) == {[k |-> x, n |-> f[x]] : x \in {y \in DOMAIN f : f[y] # 0}}
MCObs(s) == [svc |-> s.svc,
             wk |-> {[svc |-> x[1], who |-> x[2], is |-> s.wk[x]] : x \in DOMAIN s.wk},
             active |-> {[svc |-> v, chain |-> c, who |-> Active(s, v, c)] : v \in DOMAIN s.svc, c \in Chains},
             held |-> Nonzero(s.held), spent |-> Nonzero(s.spent)]
MCCfg(s) == s.cfg @@ [pre |-> s.svc, svcs |-> Svcs, ws |-> Ws, chains |-> Chains]
Start0 == LET s == RegistryInit([gov |-> Gov, scale |-> Scale]) IN
          IF Pre THEN [s EXCEPT !.svc = [v \in Svcs |-> KindOf(IF v = "s1" THEN 1 ELSE 2)]] ELSE s
INSTANCE Driver WITH Inits <- {Start0}, Step <- RegistryStep, Reqs <- MCReqs, Obs <- MCObs, CfgOf <- MCCfg
---------------------------------------------------------------------------
q == last'.q
ok == last'.err = {}
Stake(s, v, w) == Get(s.wk, <<v, w>>, None).n
\* S01: stake is conserved, moves only on its owner's calls, and comes back in full, once, after the unbonding period
S01inv == /\ \A d \in {"rew", "other"} :
               Get(st.held, d, 0) = SumF([x \in {y \in DOMAIN st.wk : st.svc[y[1]].denom = d} |-> st.wk[x].n])
          /\ \A w \in Ws, d \in {"rew", "other"} :
               Get(st.spent, <<w, d>>, 0) = SumF([x \in {y \in DOMAIN st.wk : y[2] = w /\ st.svc[y[1]].denom = d} |-> st.wk[x].n])
          /\ \A x \in DOMAIN st.wk : (st.wk[x].b = "unbonded") = (st.wk[x].n = 0)
S01 == [][/\ (\A v \in Svcs, w \in Ws : Stake(st', v, w) # Stake(st, v, w) =>
                /\ ok /\ q.by = w /\ q.svc = v /\ q.t \in {"Bond", "Claim"}
                /\ (q.t = "Bond" => Len(q.coins) = 1 /\ q.coins[1].d = st.svc[v].denom /\ Stake(st', v, w) = Stake(st, v, w) + q.coins[1].n)
                /\ (q.t = "Claim" => Stake(st', v, w) = 0))
          /\ (q.t = "Claim" => (ok <=> /\ Has(st.svc, q.svc) /\ Has(st.wk, <<q.svc, q.by>>)
                                       /\ st.wk[<<q.svc, q.by>>].b = "unbonding"
                                       /\ st.t >= st.wk[<<q.svc, q.by>>].at + st.svc[q.svc].days * Day))
          /\ (q.t = "Claim" /\ ok => LET d == st.svc[q.svc].denom IN
                Get(st'.spent, <<q.by, d>>, 0) = Get(st.spent, <<q.by, d>>, 0) - Stake(st, q.svc, q.by))
          /\ (q.t = "Unbond" /\ ok => st'.wk[<<q.svc, q.by>>].at = st.t)]_vars
\* S02: the active workers
S02inv == \A v \in DOMAIN st.svc, c \in Chains, w \in Ws :
            w \in Active(st, v, c) <=> /\ Has(st.wk, <<v, w>>) /\ <<v, c, w>> \in st.sup
                                       /\ st.wk[<<v, w>>].auth /\ st.wk[<<v, w>>].b = "bonded" /\ st.wk[<<v, w>>].n >= st.svc[v].bond
S02 == [][\A v \in DOMAIN st.svc, c \in Chains : Active(st', v, c) # Active(st, v, c) =>
             ok /\ q.svc = v /\ q.t \notin {"Advance", "Register", "Claim"}
             /\ (q.t = "Authorize" => Active(st, v, c) \subseteq Active(st', v, c))
             /\ (q.t \in {"Unauthorize", "Unbond"} => Active(st', v, c) \subseteq Active(st, v, c))
             /\ (q.t \in {"Bond", "Unbond", "Declare"} => Active(st, v, c) \ {q.by} = Active(st', v, c) \ {q.by})]_vars
\* S03: who can do what, and the order of states
S03 == [][/\ (q.t \in {"Register", "Authorize", "Unauthorize"} /\ ok => q.by = Gov)
          /\ (\A v \in DOMAIN st.svc : st'.svc[v] = st.svc[v])
          /\ (DOMAIN st'.svc # DOMAIN st.svc => q.t = "Register" /\ ok /\ st'.svc[q.svc] = q.is)
          /\ (\A v \in Svcs, w \in Ws : LET a == Get(st.wk, <<v, w>>, None) b == Get(st'.wk, <<v, w>>, None) IN
                /\ (a.auth # b.auth => ok /\ q.svc = v /\ b.auth = (q.t = "Authorize") /\ q.t \in {"Authorize", "Unauthorize"} /\ \E i \in 1..Len(q.ws) : q.ws[i] = w)
                /\ (a.b # b.b => /\ ok /\ q.by = w /\ q.svc = v
                                 /\ b.b = (CASE q.t = "Bond" -> "bonded" [] q.t = "Unbond" -> "unbonding" [] q.t = "Claim" -> "unbonded")
                                 /\ (q.t = "Unbond" => a.b = "bonded") /\ (q.t = "Claim" => a.b = "unbonding")))
          /\ st.sup \subseteq st'.sup
          /\ (\A x \in st'.sup \ st.sup : q.t = "Declare" /\ ok /\ x[1] = q.svc /\ x[3] = q.by)]_vars
===========================================================================
