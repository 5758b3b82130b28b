------------------------------ MODULE MCQuorum ------------------------------
EXTENDS Quorum
CONSTANTS Nums,      \* numbers tried everywhere as numerators, denominators and values
          Thrs,      \* thresholds that polls are opened with
          Weights,   \* weights of participants
          MaxParts, Sizes, MaxH, Ballot, Wide, Sim
VARIABLES st, id, last
Who == <<"ann", "bob", "cyd", "dan", "eve", "fay", "gus">>
Kinds == {"u64", "u128", "u256"}
\* a participant list: the first n of Who with some weights
PartLists == {[i \in 1..Len(w) |-> [a |-> Who[i], w |-> w[i]]] : w \in SeqsUpTo(Weights, MaxParts)}
N(x) == BigOf(x)
Pure == [t : {"Number"}, kind : Kinds, v : Nums] \cup [t : {"Fraction"}, x : Nums \X Nums]
        \cup [t : {"Deploy"}, what : {"verifier", "prover", "rewards"}, x : Nums \X Nums]
        \cup [t : {"Compare"}, a : (Nums \X Nums) \cap {y \in Nums \X Nums : ValidFraction(y)}, b : {y \in Nums \X Nums : ValidFraction(y)}]
Opens == [t : {"Open"}, thr : Thrs, parts : PartLists, size : Sizes, exp : {1}]
AllReqs(s) ==
  IF s.poll = <<>> THEN (IF Wide THEN Pure ELSE {}) \cup Opens \cup {[t |-> "Vote", by |-> "ann", votes |-> <<"S">>], [t |-> "Finish"]}
  ELSE LET p == s.poll[1] IN
       [t : {"Vote"}, by : Members(p) \cup {"mallory"}, votes : [1..p.size -> Ballot]]
       \cup [t : {"Vote"}, by : {"ann"}, votes : {[k \in 1..p.size + 1 |-> "S"], [k \in 1..p.size - 1 |-> "S"]}]
       \cup {[t |-> "Finish"]} \cup (IF s.h < MaxH THEN {[t |-> "Advance", n |-> 1]} ELSE {})
Pick(S) == RandomElement(S)
\* a number of at most k digits
RandBig(k) == LET n == Pick(1..k) IN Trim([i \in 1..n |-> Pick({0, 9999, Pick(0..9999), Pick(0..9999)})])
RandMax(m) == LET x == RandBig(Len(m)) IN IF BigLe(x, m) THEN x ELSE m
AnyNum(m) == LET k == Pick(1..6) IN IF k = 1 THEN Pick(Nums) ELSE IF k = 2 THEN N(Pick(0..12)) ELSE IF k = 3 THEN BigAdd(m, N(Pick(0..2))) ELSE RandMax(m)
\* a fraction near one half, near one, or anywhere
RandThr == LET k == Pick(1..5)
               d == LET x == AnyNum(U64) IN IF x = <<>> THEN <<1>> ELSE x
               half == BigDivMod(d, <<2>>).quo
           IN IF k = 1 THEN <<half, d>> ELSE IF k <= 3 THEN <<BigAdd(half, <<1>>), d>> ELSE IF k = 4 THEN <<d, d>> ELSE <<AnyNum(U64), d>>
RandWeight == LET k == Pick(1..8) IN IF k <= 4 THEN N(Pick(1..5)) ELSE IF k = 5 THEN Pick(Weights) ELSE IF k = 6 THEN RandMax(U64) ELSE IF k = 7 THEN RandMax(U128) ELSE RandMax(BigSub(BigPow2(253), <<1>>))
RandParts == LET n == Pick(0..MaxParts) same == RandWeight uni == Pick(1..3) = 1
             IN [i \in 1..n |-> [a |-> Who[i], w |-> IF uni THEN same ELSE RandWeight]]
GoodThr(x) == IF Majority(x) THEN x ELSE Pick(Thrs)
SimReq(s) ==
  LET k == Pick(1..20) IN
  IF k = 1 THEN [t |-> "Number", kind |-> Pick(Kinds), v |-> AnyNum(Pick({U64, U128, U256}))]
  ELSE IF k = 2 THEN [t |-> "Fraction", x |-> RandThr]
  ELSE IF k = 3 THEN [t |-> "Deploy", what |-> Pick({"verifier", "prover", "rewards"}), x |-> RandThr]
  ELSE IF k = 4 THEN [t |-> "Compare", a |-> RandThr, b |-> RandThr]
  ELSE IF k <= 6 \/ s.poll = <<>> THEN [t |-> "Open", thr |-> IF Pick(1..8) = 1 THEN RandThr ELSE GoodThr(RandThr), parts |-> RandParts, size |-> Pick(Sizes), exp |-> s.h + Pick(1..6)]
  ELSE IF k = 7 THEN [t |-> "Finish"]
  ELSE IF k = 8 THEN [t |-> "Advance", n |-> Pick(1..2)]
  ELSE LET p == s.poll[1]
           fresh == Members(p) \ DOMAIN p.votes
           n == IF Pick(1..20) = 1 THEN Pick(0..3) ELSE p.size
       IN [t |-> "Vote", by |-> IF fresh # {} /\ Pick(1..8) > 1 THEN Pick(fresh) ELSE Pick(Members(p) \cup {"mallory"}),
           votes |-> [j \in 1..n |-> IF Pick(1..4) = 1 THEN Pick({"F", "N"}) ELSE "S"]]
MCReqs(s) == IF Sim THEN {SimReq(s)} ELSE AllReqs(s)
MCObs(s) == [poll |-> QuorumObs(s)]
MCCfg(s) == [none |-> TRUE]
INSTANCE Driver WITH Inits <- {QuorumInit}, Step <- QuorumStep, Reqs <- MCReqs, Obs <- MCObs, CfgOf <- MCCfg
-----------------------------------------------------------------------------
q == last'.q
ok == last'.err = {}
\* D01: the quorum is the least whole weight that is at least the fraction of the total; it exceeds half of it and does not exceed it
D01 == st.poll # <<>> =>
         LET p == st.poll[1]
             total == Total(p.parts)
         IN /\ BigLe(BigMul(total, p.thr[1]), BigMul(p.quorum, p.thr[2]))
            /\ BigLt(BigMul(BigSub(p.quorum, <<1>>), p.thr[2]), BigMul(total, p.thr[1]))
            /\ BigLt(total, BigScale(p.quorum, 2)) /\ BigLe(p.quorum, total) /\ p.quorum # <<>>
\* no item ever has two winners, and a winner has the weight for it
D01b == st.poll # <<>> =>
          LET p == st.poll[1] IN
          \A k \in 1..p.size : /\ Cardinality({v \in {"S", "F", "N"} : BigLe(p.quorum, WeightFor(p, k, v))}) <= 1
                               /\ (Winner(p, k) # "none" => BigLe(BigMul(Total(p.parts), p.thr[1]), BigMul(WeightFor(p, k, Winner(p, k)), p.thr[2])))
\* which fractions are thresholds at all, and how they compare; a decided item stays decided
D01c == [][/\ (q.t = "Fraction" => /\ (last'.out.valid <=> /\ BigLt(<<>>, q.x[1]) /\ ~BigLt(q.x[2], q.x[1]) /\ BigLt(q.x[2], BigPow2(64)))
                                   /\ (last'.out.majority <=> last'.out.valid /\ BigLt(q.x[2], BigAdd(q.x[1], q.x[1]))))
           /\ (q.t = "Deploy" /\ ok => ValidFraction(q.x) /\ (q.what # "rewards" => BigLt(q.x[2], BigAdd(q.x[1], q.x[1]))))
           /\ (q.t \in {"Vote", "Finish", "Advance"} /\ st.poll # <<>> =>
                 \A k \in 1..st.poll[1].size : Winner(st.poll[1], k) # "none" => Winner(st'.poll[1], k) = Winner(st.poll[1], k))]_vars
\* the poll itself, with weights of any size: who may vote and when (V02), what a verdict takes (V01), who agreed with it (V05)
Before == st.poll[1]
After == st'.poll[1]
V01w == st.poll # <<>> =>
          LET p == st.poll[1] IN \A k \in 1..p.size, v \in {"S", "F", "N"} :
            Winner(p, k) = v <=> BigLe(BigMul(Total(p.parts), p.thr[1]), BigMul(WeightFor(p, k, v), p.thr[2]))
V02w == [][/\ (q.t = "Vote" /\ st.poll # <<>> =>
                 (ok <=> /\ q.by \in Members(Before) /\ q.by \notin DOMAIN Before.votes
                         /\ st.h < Before.exp /\ Len(q.votes) = Before.size))
           /\ (q.t = "Vote" /\ ok => /\ DOMAIN After.votes = DOMAIN Before.votes \cup {q.by} /\ After.votes[q.by] = q.votes
                                     /\ \A a \in DOMAIN Before.votes : After.votes[a] = Before.votes[a])
           /\ (q.t \in {"Finish", "Advance"} /\ st.poll # <<>> => After.votes = Before.votes /\ After.parts = Before.parts)]_vars
V05w == [][q.t = "Finish" /\ st.poll # <<>> => (ok <=> ~Before.done /\ st.h >= Before.exp) /\ (ok => After.done)]_vars
V05g == st.poll # <<>> =>
          LET p == st.poll[1] IN
          Agreeing(p) = {a \in DOMAIN p.votes : \A k \in 1..p.size : Winner(p, k) # "none" => p.votes[a][k] = Winner(p, k)}
=============================================================================
