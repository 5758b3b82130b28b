------------------------------ MODULE MCSystem ------------------------------
EXTENDS System
CONSTANTS Cfgs, Workers, Msgs, NxMsgs, Kinds, Setup, MaxBatch, MaxPolls, MaxH, MaxSess, Ballot, Leaps, Sim
VARIABLES st, id, last
Ecdsa(w) == CASE w = "wk1" -> "e1" [] w = "wk2" -> "e2" [] w = "wk3" -> "e3" [] w = "wk4" -> "e4" [] OTHER -> "e5"
Ed(w) == CASE w = "wk1" -> "d1" [] w = "wk2" -> "d2" [] w = "wk3" -> "d3" [] w = "wk4" -> "d4" [] OTHER -> "d5"
KeyFor(kt, w) == IF kt = "ecdsa" THEN Ecdsa(w) ELSE Ed(w)
Coins(n) == <<[d |-> "rew", n |-> n]>>
Ws == SetToSeq(Workers)
\* how an initial state comes about: requests carried out in the specification and in the contracts alike
Join(w, kt) == << [t |-> "Bond", by |-> w, svc |-> Svc, coins |-> Coins(5)], [t |-> "Declare", by |-> w, svc |-> Svc, chains |-> <<"A", "B">>],
                  [t |-> "RegisterKey", by |-> w, ty |-> kt, key |-> KeyFor(kt, w)] >>
SetupReqs(cfg) ==
  (IF Setup = "bare" THEN <<>>
   ELSE << [t |-> "Register", by |-> "gov", chain |-> "A", gw |-> "gA"], [t |-> "Register", by |-> "gov", chain |-> "B", gw |-> "gB"],
           [t |-> "Service", by |-> "gov", svc |-> Svc, is |-> [min |-> 1, max |-> -1, bond |-> 5, denom |-> "rew", days |-> 1, about |-> ""]],
           [t |-> "Authorize", by |-> "gov", svc |-> Svc, ws |-> Ws] >>
        \o FlattenSeq([k \in 1..Len(Ws) |-> Join(Ws[k], cfg.kt)])
        \o << [t |-> "Add", pool |-> "vA", coins |-> Coins(40)], [t |-> "Add", pool |-> "vB", coins |-> Coins(40)], [t |-> "Add", pool |-> "multisig", coins |-> Coins(40)],
              [t |-> "Update"] >>)
  \o (IF Setup # "moved" THEN <<>>
      ELSE << [t |-> "Unauthorize", by |-> "gov", svc |-> Svc, ws |-> <<Ws[1]>>], [t |-> "Update"] >>)
Run(s, reqs) == FoldLeft(LAMBDA x, q : LET y == SystemStep(x, q) IN IF Assert(y.err = {}, <<q, y.err>>) THEN y.st ELSE x, s, reqs)
Start0(cfg) == Run(SystemInit(cfg), SetupReqs(cfg))
TheCfg == CHOOSE c \in Cfgs : TRUE

OpsSeen(s) == {Pv!OpsOf(x[1]) : x \in {s.pv.cur, s.pv.nxt} \ {<<>>}} \cup DOMAIN s.vv["B"].sp
PollCount(s) == Len(s.vv["A"].polls) + Len(s.vv["B"].polls)
On(k, S) == IF k \in Kinds THEN S ELSE {}
AllReqs(s) ==
  On("Next", IF s.h < MaxH THEN [t : {"Next"}, n : {1}] ELSE {}) \cup
  On("Freeze", [t : {"Freeze"}, by : {"admin"}, chain : Chains, dir : {"both"}] \cup [t : {"Unfreeze"}, by : {"admin"}, chain : Chains, dir : {"both"}]) \cup
  On("Upgrade", [t : {"Upgrade"}, by : {"gov"}, chain : {"A"}, gw : {"gA", "gS"}]) \cup
  On("Verify", IF PollCount(s) >= MaxPolls THEN {} ELSE [t : {"Verify"}, g : {"gA", "gS"}, msgs : SeqsFromTo(Msgs, 1, MaxBatch)]) \cup
  On("Route", [t : {"Route"}, by : {"anyone"}, g : {"gA", "gS"}, msgs : SeqsFromTo(Msgs, 1, MaxBatch)]) \cup
  On("NexusIn", [t : {"NexusIn"}, msgs : SeqsFromTo(NxMsgs, 1, 1)]) \cup
  On("Vote", UNION {UNION {[t : {"Vote"}, c : {c}, poll : {n}, by : Workers, votes : [1..Len(s.vv[c].polls[n].items) -> Ballot]] : n \in DOMAIN s.vv[c].polls} : c \in Chains}) \cup
  On("End", UNION {[t : {"End"}, c : {c}, poll : DOMAIN s.vv[c].polls] : c \in Chains}) \cup
  On("VerifySet", IF PollCount(s) >= MaxPolls THEN {} ELSE [t : {"VerifySet"}, by : {"anyone"}, i : {50}, set : OpsSeen(s)]) \cup
  On("Member", [t : {"Authorize", "Unauthorize"}, by : {"gov"}, svc : {Svc}, ws : {<<w>> : w \in Workers}]) \cup
  On("Bonds", [t : {"Unbond"}, by : Workers, svc : {Svc}] \cup [t : {"Bond"}, by : Workers, svc : {Svc}, coins : {<<>>, Coins(5)}]) \cup
  On("Construct", IF Len(s.pv.sess) >= MaxSess THEN {} ELSE [t : {"Construct"}, ids : SeqsFromTo({<<m.c, m.i>> : m \in Msgs}, 0, 1)]) \cup
  On("Update", IF Len(s.pv.sess) >= MaxSess THEN {} ELSE [t : {"Update"}]) \cup
  On("Confirm", [t : {"Confirm"}]) \cup
  On("Sign", [t : {"Sign"}, session : DOMAIN s.pv.sess, by : Workers, x : {"ok"}]) \cup
  On("Distribute", [t : {"Distribute"}, pool : {"vA", "vB", "multisig"}, limit : {-1}])
Pick(S) == RandomElement(S)
Or(S, T) == IF S = {} THEN T ELSE S
\* random behaviours lean towards what makes progress
SimReq(s) ==
  LET k == Pick(1..45)
      c == Pick(Chains)
      g == IF Pick(1..8) = 1 THEN Pick(Gws) ELSE LET gs == {s.r.chains[x].gw : x \in DOMAIN s.r.chains} \cap Gws IN Pick(Or(gs, Gws))
      mine == {m \in Msgs : m.c = VerifierOf(g)}
      pool == IF Pick(1..10) = 1 THEN Msgs ELSE Or(mine, Msgs)
      good == {m \in Msgs : m.c = VerifierOf(g) /\ IsVer(s, m)}
      open == {n \in DOMAIN s.vv[c].polls : ~s.vv[c].polls[n].done}
      live == {n \in open : s.h < s.vv[c].polls[n].exp}
      over == open \ live
      n == Pick(Or(IF Pick(1..12) = 1 THEN DOMAIN s.vv[c].polls ELSE live, 1..2))
      todo == IF n \in DOMAIN s.vv[c].polls THEN s.vv[c].polls[n].part \ DOMAIN s.vv[c].polls[n].votes ELSE {}
      len == IF n \in DOMAIN s.vv[c].polls THEN Len(s.vv[c].polls[n].items) ELSE 1
      box == {m \in Range(s.box["gB"]) : m.v # 9}
      ids == {<<m.c, m.i>> : m \in Or(IF Pick(1..12) = 1 THEN Msgs ELSE box, Msgs)}
      sess == IF s.pv.sess = <<>> THEN 1 ELSE Pick(Max2(1, Len(s.pv.sess) - 2)..Len(s.pv.sess))
      left == IF sess \in DOMAIN s.pv.sess THEN DOMAIN s.pv.sess[sess].set.who \ DOMAIN s.pv.sess[sess].sigs ELSE {}
      w == Pick(Workers)
      \* the poll about the pending set
      about == IF s.pv.nxt = <<>> THEN 0 ELSE Get(s.vv["B"].sp, Pv!OpsOf(s.pv.nxt[1]), 0)
      undecided == IF about = 0 THEN {} ELSE IF s.h >= s.vv["B"].polls[about].exp THEN {} ELSE s.vv["B"].polls[about].part \ DOMAIN s.vv["B"].polls[about].votes
  IN IF Pick(1..3) = 1 /\ "A" \notin DOMAIN s.r.chains THEN [t |-> "Register", by |-> "gov", chain |-> "A", gw |-> "gA"]
     ELSE IF Pick(1..3) = 1 /\ "B" \notin DOMAIN s.r.chains THEN [t |-> "Register", by |-> "gov", chain |-> "B", gw |-> "gB"]
     ELSE IF good # {} /\ Pick(1..8) = 1 THEN [t |-> "Route", by |-> "anyone", g |-> g, msgs |-> <<Pick(good)>>]
     ELSE IF undecided # {} /\ Pick(1..5) = 1 THEN [t |-> "Vote", c |-> "B", poll |-> about, by |-> Pick(undecided), votes |-> <<IF Pick(1..8) = 1 THEN "F" ELSE "S">>]
     ELSE IF over # {} /\ Pick(1..8) = 1 THEN [t |-> "End", c |-> c, poll |-> Pick(over)]
     ELSE IF Pick(1..25) = 1 THEN [t |-> "Distribute", pool |-> Pick({"vA", "vB", "multisig"}), limit |-> Pick({-1, 1, 3})]
     ELSE IF k = 1 THEN [t |-> "Next", n |-> Pick(Leaps)]
     ELSE IF k <= 3 THEN (IF Pick(1..3) = 1 THEN [t |-> "Freeze", by |-> "admin", chain |-> c, dir |-> Pick({"in", "out", "both"})]
                           ELSE [t |-> "Unfreeze", by |-> "admin", chain |-> c, dir |-> Pick({"in", "out", "both"})])
     ELSE IF k = 4 THEN [t |-> "Upgrade", by |-> "gov", chain |-> "A", gw |-> Pick({"gA", "gS"})]
     ELSE IF k <= 9 THEN [t |-> "Verify", g |-> g, msgs |-> [j \in 1..Pick(1..MaxBatch) |-> Pick(pool)]]
     ELSE IF k <= 19 THEN [t |-> "Vote", c |-> c, poll |-> n, by |-> IF Pick(1..10) = 1 THEN w ELSE Pick(Or(todo, Workers)),
                           votes |-> IF Pick(1..6) > 1 THEN [j \in 1..len |-> "S"] ELSE [j \in 1..len |-> Pick(Ballot)]]
     ELSE IF k <= 21 THEN [t |-> "End", c |-> c, poll |-> Pick(Or(over, {n}))]
     ELSE IF k <= 25 THEN [t |-> "Route", by |-> Pick({"anyone", "wk1", "gov"}), g |-> g, msgs |-> [j \in 1..Pick(1..MaxBatch) |-> Pick(IF Pick(1..6) = 1 THEN pool ELSE Or(good, pool))]]
     ELSE IF k = 26 /\ NxMsgs # {} THEN [t |-> "NexusIn", msgs |-> <<Pick(NxMsgs)>>]
     ELSE IF k <= 28 /\ (undecided = {} \/ Pick(1..6) = 1) THEN (IF OpsSeen(s) # {} THEN [t |-> "VerifySet", by |-> "anyone", i |-> 50 + Pick(0..3),
                                                   set |-> IF s.pv.nxt # <<>> /\ Pick(1..8) > 1 THEN Pv!OpsOf(s.pv.nxt[1]) ELSE Pick(OpsSeen(s))]
                           ELSE [t |-> "Update"])
     ELSE IF k = 29 THEN (IF Pick(1..3) = 1 THEN [t |-> "Unauthorize", by |-> "gov", svc |-> Svc, ws |-> <<w>>]
                          ELSE [t |-> "Authorize", by |-> "gov", svc |-> Svc, ws |-> <<Pick(Or(Workers \ Active(s, "B"), Workers))>>])
     ELSE IF k = 30 THEN (IF Pick(1..3) > 1 THEN [t |-> "Bond", by |-> Pick(Or(Workers \ Active(s, "B"), Workers)), svc |-> Svc, coins |-> Coins(Pick({1, 4, 5}))]
                          ELSE [t |-> Pick({"Unbond", "Claim"}), by |-> w, svc |-> Svc])
     ELSE IF k = 31 THEN (IF Pick(1..2) = 1 THEN [t |-> "Declare", by |-> w, svc |-> Svc, chains |-> <<c>>]
                          ELSE LET x == Pick(Workers) IN [t |-> "RegisterKey", by |-> w, ty |-> TheCfg.kt, key |-> KeyFor(TheCfg.kt, x)])
     ELSE IF k <= 34 THEN [t |-> "Construct", ids |-> [j \in 1..Pick(0..MaxBatch) |-> Pick(ids)]]
     ELSE IF k = 35 \/ s.pv.cur = <<>> THEN [t |-> "Update"]
     ELSE IF k = 36 \/ (s.pv.nxt # <<>> /\ Pv!OpsOf(s.pv.nxt[1]) \in Confirmed(s, "B") /\ Pick(1..2) = 1) THEN [t |-> "Confirm"]
     ELSE IF k = 37 THEN (IF Pick(1..3) = 1 THEN [t |-> "Add", pool |-> Pick({"vA", "vB", "multisig"}), coins |-> Coins(Pick({1, 10, 30}))]
                          ELSE [t |-> "Distribute", pool |-> Pick({"vA", "vB", "multisig"}), limit |-> Pick({-1, 1, 3})])
     ELSE IF k = 38 THEN [t |-> "Allow", on |-> ~s.pv.allowed \/ Pick(1..8) > 1]
     ELSE [t |-> "Sign", session |-> sess, by |-> IF left # {} /\ Pick(1..8) > 1 THEN Pick(left) ELSE w, x |-> IF Pick(1..8) = 1 THEN Pick({"alt", "junk"}) ELSE "ok"]
MCReqs(s) == IF Sim THEN {SimReq(s)} ELSE AllReqs(s)
MCObs(s) == [chains |-> R!RouterObs(s.r, Chains),
             box |-> [g \in Gws |-> Range(s.box[g])],
             ver |-> {m \in Msgs : IsVer(s, m)},
             active |-> [c \in Chains |-> Active(s, c)],
             cur |-> s.pv.cur, proofs |-> [n \in DOMAIN s.pv.sess |-> Pv!ProofObs(s.pv, n)],
             held |-> s.rw.held, paid |-> {[who |-> w, n |-> s.rw.paid[w]] : w \in {x \in DOMAIN s.rw.paid : s.rw.paid[x] # 0}}]
MCCfg(s) == LET c == TheCfg IN [cfg |-> c, setup |-> SetupReqs(c), workers |-> Workers, msgs |-> Msgs, nx |-> NxMsgs]
INSTANCE Driver WITH Inits <- {Start0(TheCfg)}, Step <- SystemStep, Reqs <- MCReqs, Obs <- MCObs, CfgOf <- MCCfg
---------------------------------------------------------------------------
q == last'.q
ok == last'.err = {}
o == last'.out
\* a quorum of the workers a poll was opened for attested this very message
Attested(s, m) == m.c \in Chains /\
  \E n \in DOMAIN s.vv[m.c].polls : LET p == s.vv[m.c].polls[n] IN
    /\ p.kind = "msgs" /\ DOMAIN p.votes \subseteq p.part
    /\ \E k \in 1..Len(p.items) : p.items[k] = m
         /\ Cardinality({w \in DOMAIN p.votes : p.votes[w][k] = "S"}) * s.vv[m.c].cfg.den >= s.vv[m.c].cfg.num * Cardinality(p.part)
Legit(s, m) == m \in s.nx \/ Attested(s, m)
\* E01
E01inv == /\ \A g \in Gws : \A x \in DOMAIN st.box[g] : LET m == st.box[g][x] IN x = <<m.c, m.i>> /\ Legit(st, m)
          /\ \A b \in DOMAIN st.pv.batches : \A k \in 1..Len(st.pv.batches[b].msgs) :
               LET m == st.pv.batches[b].msgs[k] IN m.d = "B" /\ Legit(st, m)
\* what has been attested anybody can carry through as long as neither end is frozen
E01live == \A m \in Msgs : LET c == m.c d == m.d IN
  (IsVer(st, m) /\ c \in DOMAIN st.r.chains /\ ~st.r.chains[c].fin /\ (d \in DOMAIN st.r.chains => ~st.r.chains[d].fout)) =>
     LET x == SystemStep(st, [t |-> "Route", by |-> "anyone", g |-> st.r.chains[c].gw, msgs |-> <<m>>]) IN
     /\ x.err = {}
     /\ (d \in DOMAIN st.r.chains => x.st.box[st.r.chains[d].gw] = Put(st.box[st.r.chains[d].gw], <<m.c, m.i>>, m))
     /\ (d \notin DOMAIN st.r.chains => <<m.c, m.i>> \in x.st.gone)
E01 == [][/\ (st'.box # st.box \/ st'.gone # st.gone => ok /\ q.t \in {"Route", "NexusIn"})
          /\ \A g \in Gws : \A x \in DOMAIN st'.box[g] :
               (x \notin DOMAIN st.box[g] \/ st.box[g][x] # st'.box[g][x]) =>
                 LET m == st'.box[g][x] IN
                 /\ \E k \in 1..Len(q.msgs) : q.msgs[k] = m
                 /\ m.d \in DOMAIN st.r.chains /\ st.r.chains[m.d].gw = g /\ ~st.r.chains[m.d].fout
                 /\ (q.t = "Route" => m.c \in DOMAIN st.r.chains /\ st.r.chains[m.c].gw = q.g /\ ~st.r.chains[m.c].fin /\ Attested(st, m))
          /\ \A g \in Gws : DOMAIN st.box[g] \subseteq DOMAIN st'.box[g]
          /\ \A c \in Chains : \A n \in DOMAIN st'.vv[c].polls \ DOMAIN st.vv[c].polls : st'.vv[c].polls[n].part = Active(st, c)]_vars
\* E02
Opens == q.t \in {"Construct", "Update"} /\ ok /\ o.session # <<>>
E02inv == /\ st.pv.cur # <<>> => st.pv.cur[1] \in st.pv.regs
          /\ \A n \in DOMAIN st.pv.sess : st.pv.sess[n].set \in st.pv.regs
                /\ (st.pv.sess[n].done => Cardinality(DOMAIN st.pv.sess[n].sigs \cap DOMAIN st.pv.sess[n].set.who) >= st.pv.sess[n].set.thr)
E02 == [][/\ (Opens => st'.pv.sess[Len(st'.pv.sess)].set = st.pv.cur[1] /\ st.pv.cur[1] \in st.pv.regs)
          /\ (st'.pv.cur # st.pv.cur =>
                \/ q.t = "Update" /\ st.pv.cur = <<>>
                \/ q.t = "Confirm" /\ st'.pv.cur = st.pv.nxt /\
                   LET n == st.vv["B"].sp[Pv!OpsOf(st.pv.nxt[1])] p == st.vv["B"].polls[n] IN
                   /\ DOMAIN p.votes \subseteq p.part
                   /\ Cardinality({w \in DOMAIN p.votes : p.votes[w] = <<"S">>}) * st.vv["B"].cfg.den >= st.vv["B"].cfg.num * Cardinality(p.part))
          /\ (q.t = "Update" /\ ok =>
                LET new == IF st.pv.cur = <<>> THEN st'.pv.cur[1] ELSE st'.pv.nxt[1] IN
                DOMAIN new.who = Active(st, "B") /\ \A w \in DOMAIN new.who : new.who[w] = st.pv.keys[<<w, st.pv.cfg.kt>>])]_vars
\* E03: what the rewards contract has on record is who agreed with ended polls and who signed
Reports(s, pool, w) == SumF([x \in {y \in DOMAIN s.rw.tally : y[1] = pool} |-> Get(s.rw.tally[x].part, w, 0)])
E03inv == \A w \in Workers :
  /\ \A c \in Chains : Reports(st, Contract(c), w) =
       Cardinality({n \in DOMAIN st.vv[c].polls : st.vv[c].polls[n].done /\ w \in DOMAIN st.vv[c].polls[n].votes /\ Vt!Agrees(st.vv[c].polls[n], w)})
  /\ Reports(st, "multisig", w) = Cardinality({n \in DOMAIN st.pv.sess : w \in DOMAIN st.pv.sess[n].sigs})
E03 == [][/\ (st'.rw.tally # st.rw.tally => ok /\ q.t \in {"End", "Sign"})
          /\ (st'.rw.paid # st.rw.paid => ok /\ q.t = "Distribute")]_vars
===========================================================================
