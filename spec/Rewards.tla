----------------------------- MODULE Rewards ------------------------------
(* contracts/rewards: participation in epochs, and payouts from one pool per contract. *)
EXTENDS Util
\* State: cfg = [gov] ; h: block height ; par = [dur, rew, num, den]: parameters in force
\*   last = [n, at]: the epoch in which the parameters were last set, and the height at which it started
\*   ev: <<pool, event>> -> epoch of its first report ; tally: <<pool, epoch>> -> [events, part: worker -> reports, par]
\*   pool: pool -> balance ; mark: pool -> last distributed epoch ; held: tokens held ; paid: worker -> tokens received
Huge == 2147483647

RewardsInit(cfg, par) == [cfg |-> cfg, h |-> 0, par |-> par, last |-> [n |-> 0, at |-> 0], ev |-> <<>>, tally |-> <<>>,
                          pool |-> <<>>, mark |-> <<>>, held |-> 0, paid |-> <<>>]

\* the current epoch and when it began
Elapsed(s) == (s.h - s.last.at) \div s.par.dur
EpochNo(s) == s.last.n + Elapsed(s)
EpochStart(s) == s.last.at + Elapsed(s) * s.par.dur

WRecord(s, q) ==
  LET new == ~Has(s.ev, <<q.by, q.event>>)
      e == IF new THEN EpochNo(s) ELSE s.ev[<<q.by, q.event>>]
      t == Get(s.tally, <<q.by, e>>, [events |-> 0, part |-> <<>>, par |-> s.par])
  IN IF q.event = "" THEN Fail(s, {"noEventId"})
     ELSE Ok([s EXCEPT !.ev = Put(@, <<q.by, q.event>>, e),
                       !.tally = Put(@, <<q.by, e>>, [t EXCEPT !.events = @ + (IF new THEN 1 ELSE 0),
                                                               !.part = Put(@, q.who, Get(@, q.who, 0) + 1)])], <<>>)

WAdd(s, q) ==
  LET e == G(Len(q.coins) # 1 \/ (\E i \in 1..Len(q.coins) : q.coins[i].d # "rew") , "wrongCoins")
           \cup G(Len(q.coins) = 1 /\ q.coins[1].d = "rew" /\ q.coins[1].n = 0, "zero")
  IN IF e # {} THEN Fail(s, e)
     ELSE Ok([s EXCEPT !.pool = Put(@, q.pool, Get(@, q.pool, 0) + q.coins[1].n), !.held = @ + q.coins[1].n], <<>>)

\* a worker qualifies when its share of the epoch's events reaches the threshold; being reported more often than there
\* were events is not a valid share
Qualified(t) == {w \in DOMAIN t.part : t.part[w] <= t.events /\ t.part[w] * t.par.den >= t.par.num * t.events}
Share(t) == LET n == Cardinality(Qualified(t)) IN IF n = 0 THEN 0 ELSE t.par.rew \div n
\* what each worker earns in the epochs a..b
Earned(s, pool, w, a, b) ==
  LET due == {e \in a..b : Has(s.tally, <<pool, e>>) /\ w \in Qualified(s.tally[<<pool, e>>])}
  IN SumF([e \in due |-> Share(s.tally[<<pool, e>>])])
Workers(s, pool) == UNION {DOMAIN s.tally[x].part : x \in {y \in DOMAIN s.tally : y[1] = pool}}

From(s, pool) == IF Has(s.mark, pool) THEN s.mark[pool] + 1 ELSE 0
WDistribute(s, q) ==
  LET lim == IF q.limit = -1 THEN 10 ELSE q.limit
      from == From(s, q.pool)
      to == IF lim > EpochNo(s) THEN EpochNo(s) - 2 ELSE Min2(from + lim - 1, EpochNo(s) - 2)
      pay == LET all == [w \in Workers(s, q.pool) |-> Earned(s, q.pool, w, from, to)]
             IN [w \in {x \in DOMAIN all : all[x] > 0} |-> all[w]]
      total == SumF(pay)
      e == G(to < from, "nothing") \cup G(to >= from /\ total > Get(s.pool, q.pool, 0), "insufficient")
  IN IF e # {} THEN Fail(s, e)
     ELSE Ok([s EXCEPT !.mark = Put(@, q.pool, to), !.pool = IF total = 0 THEN @ ELSE Put(@, q.pool, @[q.pool] - total),
                       !.held = @ - total, !.paid = [w \in DOMAIN @ \cup DOMAIN pay |-> Get(@, w, 0) + Get(pay, w, 0)]],
             [pay |-> pay])

WParams(s, q) ==
  LET e == G(q.by # s.cfg.gov, "notGov")
           \cup G(q.par.dur = 0 \/ q.par.rew = 0 \/ q.par.num = 0 \/ q.par.den = 0 \/ q.par.num > q.par.den, "badParams")
      over == s.h - EpochStart(s) > q.par.dur
  IN IF e # {} THEN Fail(s, e)
     ELSE Ok([s EXCEPT !.par = q.par,
                       !.last = IF over THEN [n |-> EpochNo(s) + 1, at |-> s.h] ELSE [n |-> EpochNo(s), at |-> EpochStart(s)]], <<>>)

RewardsStep(s, q) ==
  CASE q.t = "Advance" -> Ok([s EXCEPT !.h = @ + q.n], <<>>)
    [] q.t = "Record" -> WRecord(s, q)
    [] q.t = "Add" -> WAdd(s, q)
    [] q.t = "Distribute" -> WDistribute(s, q)
    [] q.t = "Params" -> WParams(s, q)
===========================================================================
