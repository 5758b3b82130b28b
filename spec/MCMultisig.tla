---------------------------- MODULE MCMultisig ----------------------------
EXTENDS Multisig
CONSTANTS Accts, KeyNames, SetNames, Callers, Msgs, Forms, Graces, Pre, MaxSessions, MaxH, Wrong, Zeros, Sim
VARIABLES st, id, last
Gov == "gov"
\* e*: compressed ECDSA keys, u*: uncompressed ones, d*: Ed25519 keys, x*: not of any key's length
Name(p, n) == p \o ToString(n)
Ty(n) == IF n \in {Name("e", x) : x \in 1..33} \cup {"u1", "u2"} THEN "ecdsa" ELSE IF n \in {Name("d", x) : x \in 1..33} THEN "ed25519" ELSE "none"
K(n) == [n |-> n, ty |-> Ty(n)]
M(n, w) == [k |-> K(n), w |-> w]
S(who, thr, at) == [who |-> who, thr |-> thr, at |-> at]
Members(N, P(_), W(_)) == [a \in {Name("acc", n) : n \in N} |-> LET n == CHOOSE n \in N : a = Name("acc", n) IN M(Name(P(n), n), W(n))]
\* s1: two out of three; s2..s8 differ from it in one thing each; w*: weighted; z*: no threshold, one out of reach, members
\* without weight or with the same key, nobody; b*: many members
SetOf(n) ==
  CASE n = "s1" -> S([anna |-> M("e1", 1), bert |-> M("e2", 1), cleo |-> M("d1", 1)], 2, 7)
    [] n = "s2" -> S([anna |-> M("e1", 1), bert |-> M("e2", 1), cleo |-> M("d1", 1)], 3, 7)
    [] n = "s3" -> S([anna |-> M("e1", 1), bert |-> M("e2", 2), cleo |-> M("d1", 1)], 2, 7)
    [] n = "s4" -> S([anna |-> M("e1", 1), bert |-> M("e3", 1), cleo |-> M("d1", 1)], 2, 7)
    [] n = "s5" -> S([anna |-> M("e1", 1), bert |-> M("e2", 1), cleo |-> M("d1", 1)], 2, 8)
    [] n = "w1" -> S([anna |-> M("e1", 5), bert |-> M("e2", 1), cleo |-> M("d1", 2), dora |-> M("u1", 3), emil |-> M("d2", 7)], 9, 1)
    [] n = "w2" -> S([anna |-> M("d3", 1), bert |-> M("u2", 1), emil |-> M("e5", 4)], 4, 2)
    [] n = "w3" -> S([dora |-> M("e4", 2)], 2, 3)
    [] n = "w4" -> S([anna |-> M("e1", 100000), bert |-> M("e2", 1000000), cleo |-> M("e3", 100000000), dora |-> M("e4", 1)], 100000001, 3)
    [] n = "s6" -> S([anna |-> M("e2", 1), bert |-> M("e1", 1), cleo |-> M("d1", 1)], 2, 7)
    [] n = "s7" -> S([anna |-> M("e1", 2), bert |-> M("e2", 1), cleo |-> M("d1", 1)], 2, 7)
    [] n = "s8" -> S([anna |-> M("e1", 1), bert |-> M("e2", 1), emil |-> M("d1", 1)], 2, 7)
    [] n = "z1" -> S([anna |-> M("e1", 1), cleo |-> M("d1", 1)], 0, 7)
    [] n = "z2" -> S([anna |-> M("e1", 1), cleo |-> M("d1", 2)], 4, 7)
    [] n = "z3" -> S([anna |-> M("e1", 0), bert |-> M("e1", 1), cleo |-> M("d1", 0)], 1, 7)
    [] n = "z5" -> S([anna |-> M("e1", 1), bert |-> M("e1", 1), emil |-> M("e1", 1)], 2, 7)
    [] n = "z4" -> S(<<>>, 1, 7)
    [] n = "b1" -> S(Members(10..33, LAMBDA x : "e", LAMBDA x : 1), 16, 4)
    [] n = "b2" -> S(Members(12..25, LAMBDA x : IF x % 3 = 0 THEN "d" ELSE "e", LAMBDA x : x), 171, 5)
    [] n = "b3" -> S(Members(8..19, LAMBDA x : "d", LAMBDA x : 1), 12, 6)
Sets == {SetOf(n) : n \in SetNames}
Keys == {K(n) : n \in KeyNames}
Sigs == [k : {x \in Keys : x.ty # "none"}, m : {x \in Msgs : GoodMsg(x)}, x : Forms]
RightSig(s, n, a) == [k |-> s.sessions[n].set.who[a].k, m |-> s.sessions[n].msg, x |-> "ok"]
\* breadth-first: per session and account its right signature, the same in other forms, and other members' or messages'
SubmitSigs(s, n) ==
  LET own == {s.sessions[n].set.who[a].k : a \in DOMAIN s.sessions[n].set.who} IN
  {x \in [k : own, m : {y \in Msgs : GoodMsg(y)}, x : {"ok"}] : Wrong \/ x.m = s.sessions[n].msg} \cup [k : own, m : {s.sessions[n].msg}, x : Forms]
AllReqs(s) ==
  (IF s.h < MaxH THEN [t : {"Advance"}, n : {1}] ELSE {}) \cup
  (IF Pre THEN {} ELSE [t : {"Authorize", "Unauthorize"}, by : {Gov, "anna", "p1", "rewards", "multisig", "owner"}, who : Callers] \cup
                       [t : {"RegisterKey"}, by : Accts, key : Keys] \cup [t : {"RegisterSet"}, by : {"anna"}, set : Sets]) \cup
  (IF Len(s.sessions) < MaxSessions \/ ~Pre
   THEN {x \in [t : {"Start"}, by : Callers \cup {"anna"}, set : Sets, msg : Msgs, chain : {"B"}] \cup
           [t : {"Start"}, by : {Gov, "rewards", "multisig", "owner"}, set : Sets, msg : {"m1"}, chain : {"B"}] :
            Len(s.sessions) < MaxSessions \/ x.by \notin s.auth \/ x.set \notin s.sets \/ ~GoodMsg(x.msg)} ELSE {}) \cup
  UNION {[t : {"Submit"}, by : Accts, session : {n}, sig : SubmitSigs(s, n)] : n \in DOMAIN s.sessions} \cup
  (IF Keys = {} THEN {} ELSE [t : {"Submit"}, by : {"anna"}, session : {Len(s.sessions) + 1}, sig : {[k |-> K("e1"), m |-> "m1", x |-> "ok"]}])
Pick(X) == RandomElement(X)
SimReq(s) ==
  LET k == Pick(1..20)
      open == {x \in DOMAIN s.sessions : s.sessions[x].at < 0}
      n == IF s.sessions = <<>> THEN 1 ELSE IF open # {} /\ Pick(1..3) = 1 THEN Pick(open) ELSE IF Pick(1..15) = 1 THEN Pick(1..Len(s.sessions) + 1) ELSE Pick(Max2(1, Len(s.sessions) - 4)..Len(s.sessions))
      who == IF n \in DOMAIN s.sessions THEN DOMAIN s.sessions[n].set.who ELSE Accts
      fresh == IF n \in DOMAIN s.sessions THEN who \ DOMAIN s.sessions[n].sigs ELSE {}
      by == IF who = {} \/ Pick(1..12) = 1 THEN Pick(Accts) ELSE IF fresh # {} /\ Pick(1..6) > 1 THEN Pick(fresh) ELSE Pick(who)
  IN IF k = 1 THEN [t |-> "Authorize", by |-> Pick({Gov, Gov, Pick(Accts)}), who |-> Pick(Callers)]
     ELSE IF k = 2 THEN [t |-> "Unauthorize", by |-> Pick({Gov, Pick(Accts)}), who |-> Pick(Callers)]
     ELSE IF k <= 4 THEN [t |-> "RegisterKey", by |-> Pick(Accts), key |-> Pick(Keys)]
     ELSE IF k = 5 \/ s.sets = {} THEN [t |-> "RegisterSet", by |-> Pick(Accts), set |-> Pick(Sets)]
     ELSE IF k <= 7 THEN [t |-> "Advance", n |-> Pick(1..Min2(s.cfg.grace, 5) + 2)]
     \* (in simulation MaxSessions bounds how many sessions are incomplete at a time)
     ELSE IF k <= 10 /\ Cardinality(open) < MaxSessions THEN [t |-> "Start", by |-> IF s.auth # {} /\ Pick(1..6) > 1 THEN Pick(s.auth) ELSE Pick(Callers \cup {Gov, "anna"}),
                           set |-> Pick(IF Pick(1..10) > 1 THEN s.sets ELSE Sets), msg |-> IF Pick(1..12) = 1 THEN Pick(Msgs) ELSE Pick({"m1", "m2", "m3"}),
                           chain |-> Pick({"A", "B", "C"})]
     ELSE [t |-> "Submit", by |-> by, session |-> n,
           sig |-> IF n \in DOMAIN s.sessions /\ by \in who /\ Pick(1..5) > 1
                   THEN [RightSig(s, n, by) EXCEPT !.x = IF Pick(1..6) = 1 THEN Pick(Forms) ELSE "ok"]
                   ELSE Pick(Sigs)]
MCReqs(s) == IF Sim THEN {SimReq(s)} ELSE AllReqs(s)
MCObs(s) == [sessions |-> [n \in DOMAIN s.sessions |-> SessionObs(s.sessions[n])], sets |-> s.sets,
             keys |-> {[by |-> x[1], key |-> s.keys[x]] : x \in DOMAIN s.keys}]
MCCfg(s) == s.cfg @@ [sets |-> Sets, accts |-> Accts, pre |-> [auth |-> s.auth, sets |-> s.sets]]
Start0(g, z) == LET s == MultisigInit([gov |-> Gov, grace |-> g, zeros |-> z]) IN
             IF Pre THEN [s EXCEPT !.auth = Callers, !.sets = Sets] ELSE s
INSTANCE Driver WITH Inits <- {Start0(g, z) : g \in Graces, z \in Zeros}, Step <- MultisigStep, Reqs <- MCReqs, Obs <- MCObs, CfgOf <- MCCfg
---------------------------------------------------------------------------
q == last'.q
ok == last'.err = {}
\* M01: who can start sessions, over what, and who decides about it
M01 == [][/\ (q.t = "Start" => (ok <=> q.by \in st.auth /\ q.set \in st.sets /\ GoodMsg(q.msg)))
          /\ (q.t = "Start" /\ ok => /\ Len(st'.sessions) = Len(st.sessions) + 1
                                     /\ last'.out.session = Len(st'.sessions)
                                     /\ LET x == st'.sessions[Len(st'.sessions)] IN x.set = q.set /\ x.msg = q.msg /\ x.sigs = <<>>)
          /\ (Len(st'.sessions) # Len(st.sessions) => q.t = "Start" /\ ok)
          /\ (st'.auth # st.auth => q.by = Gov /\ q.t \in {"Authorize", "Unauthorize"})
          /\ (q.t \in {"Authorize", "Unauthorize"} => (ok <=> q.by = Gov))
          /\ (q.t \in {"Authorize", "Unauthorize"} /\ ok => (q.who \in st'.auth <=> q.t = "Authorize"))]_vars
\* M02: recorded signatures are right, and right ones are recorded
M02inv == \A n \in DOMAIN st.sessions : LET x == st.sessions[n] IN
            \A a \in DOMAIN x.sigs : a \in DOMAIN x.set.who /\ x.sigs[a].k = x.set.who[a].k /\ x.sigs[a].m = x.msg /\ GoodForm(x.sigs[a])
M02 == [][/\ (\A n \in DOMAIN st.sessions : st'.sessions[n].sigs # st.sessions[n].sigs =>
                q.t = "Submit" /\ ok /\ q.session = n /\ q.by \notin DOMAIN st.sessions[n].sigs
                /\ st'.sessions[n].sigs = Put(st.sessions[n].sigs, q.by, q.sig))
          /\ (q.t = "Submit" /\ ~ok /\ q.session \in DOMAIN st.sessions =>
                LET x == st.sessions[q.session] IN
                \/ q.by \notin DOMAIN x.set.who \/ q.by \in DOMAIN x.sigs \/ q.sig.k # x.set.who[q.by].k \/ q.sig.m # x.msg \/ ~GoodForm(q.sig)
                \/ (x.at >= 0 /\ st.h - st.cfg.grace > x.at))]_vars
\* M03: completion exactly at the threshold, once and for ever; the grace period
M03inv == \A n \in DOMAIN st.sessions : LET x == st.sessions[n] IN
            (x.at >= 0) <=> (x.sigs # <<>> /\ SumF([a \in DOMAIN x.sigs |-> x.set.who[a].w]) >= x.set.thr)
M03 == [][\A n \in DOMAIN st.sessions : LET x == st.sessions[n] y == st'.sessions[n] IN
            /\ (x.at >= 0 => y.at = x.at)
            /\ (x.at < 0 /\ y.at >= 0 => y.at = st.h /\ q.t = "Submit" /\ last'.out.completed = <<n, st.h>>)
            /\ (q.t = "Submit" /\ ok /\ q.session = n => (last'.out.completed # <<>> <=> x.at < 0 /\ y.at >= 0))
            /\ (q.t = "Submit" /\ ok /\ q.session = n /\ x.at >= 0 => st.h - st.cfg.grace <= x.at)]_vars
\* M04: the registries
M04 == [][/\ (\A k \in DOMAIN st'.keys : (k \notin DOMAIN st.keys \/ st'.keys[k] # st.keys[k]) =>
                 q.t = "RegisterKey" /\ ok /\ k = <<q.by, q.key.ty>> /\ st'.keys[k] = q.key)
          /\ DOMAIN st.keys \subseteq DOMAIN st'.keys
          /\ (q.t = "RegisterKey" /\ ok => st'.keys[<<q.by, q.key.ty>>] = q.key)
          /\ st.sets \subseteq st'.sets
          /\ (q.t = "RegisterSet" => ok /\ st'.sets = st.sets \cup {q.set})
          /\ (\A n \in DOMAIN st.sessions : st'.sessions[n].set = st.sessions[n].set)]_vars
\* M05: one report per accepted signature
M05 == [][q.t = "Submit" /\ ok => last'.out.rewards = <<[session |-> q.session, worker |-> q.by]>>]_vars
===========================================================================
