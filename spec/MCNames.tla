------------------------------ MODULE MCNames ------------------------------
EXTENDS Names
CONSTANTS Texts,      \* chain names tried everywhere
          Regs,       \* chain names for requests that change state
          Ids, Gws, Workers, Groups, MaxBox, Sim
VARIABLES st, id, last
Nexus == "nexus"
Cfg == [nexus |-> Nexus, workers |-> Workers, names |-> Texts, ids |-> Ids]
M(s, i, d) == [src |-> s, i |-> i, dst |-> d, sa |-> <<"a">>, da |-> <<"b">>, hash |-> "ok"]
OddMsgs == {M(<<"a">>, <<>>, <<"b">>), [M(<<"a">>, <<"1">>, <<"b">>) EXCEPT !.sa = <<>>], [M(<<"a">>, <<"1">>, <<"b">>) EXCEPT !.da = <<>>]} \cup
           {[M(<<"a">>, <<"1">>, <<"b">>) EXCEPT !.hash = h] : h \in {"short", "long", "empty", "nohex", "upper"}}
MsgsOf(S, I) == {M(s, i, d) : s \in S, i \in I, d \in S} \cup OddMsgs
In(g) == g \in Groups
AllReqs(s) ==
  (IF In("chain")
   THEN [t : {"Register", "Upgrade"}, name : Regs, gw : Gws] \cup [t : {"Freeze"}, name : Regs, on : BOOLEAN]
        \cup [t : {"Route"}, by : Gws \cup {Nexus}, m : {M(a, <<"1">>, b) : a \in Regs, b \in Regs} \cup OddMsgs]
   ELSE {}) \cup
  (IF In("support") THEN [t : {"Declare"}, by : Workers, names : SeqsUpTo(Regs, 2)] ELSE {}) \cup
  (IF In("box")
   THEN {x \in [t : {"Put"}, m : {M(a, i, <<"b">>) : a \in Regs, i \in Ids} \cup OddMsgs] :
           Cardinality(DOMAIN s.box) < MaxBox \/ <<Lower(x.m.src), x.m.i>> \in DOMAIN s.box}
   ELSE {}) \cup
  (IF In("pure")
   THEN [t : {"Verifier", "Prover", "Sign", "Api"}, name : Texts] \cup [t : {"ApiEq", "Eq"}, a : Texts, b : Texts]
        \cup [t : {"Ask", "FromNexus"}, m : {M(a, i, b) : a \in Texts, i \in {<<>>, <<"1">>}, b \in Texts} \cup OddMsgs]
        \cup [t : {"Text"}, name : Texts, i : Ids] \cup [t : {"Read"}, text : {a \o b : a \in Texts, b \in Ids \cup Texts} \cup {a \o <<":">> \o b : a \in Texts, b \in Ids}]
   ELSE {})
Pick(S) == RandomElement(S)
Alphabet == {"a", "A", "b", "B", "k", "K", "i", "ae", "AE", "KEL", "IDOT", "DOT", ":", "-", "0", "1", " "}
\* (the chain refuses events with blank texts: those are not tried)
NotBlank(t) == IF t # <<>> /\ \A j \in 1..Len(t) : t[j] = " " THEN <<"a">> \o t ELSE t
RandText == NotBlank(IF Pick(1..4) = 1 THEN [j \in 1..Pick(0..4) |-> Pick(Alphabet)] ELSE IF Pick(1..3) = 1 THEN Pick(Texts) ELSE Pick({t \in Texts : ValidName(t)}))
Recase(t) == [j \in 1..Len(t) |-> IF Pick(1..2) = 1 THEN t[j] ELSE
                CASE t[j] = "a" -> "A" [] t[j] = "b" -> "B" [] t[j] = "ae" -> "AE" [] t[j] = "k" -> Pick({"K", "KEL"}) [] OTHER -> t[j]]
AName(s) == IF s.chains # <<>> /\ Pick(1..3) > 1 THEN Recase(Pick(DOMAIN s.chains)) ELSE RandText
AnId == IF Pick(1..3) = 1 THEN RandText ELSE Pick(Ids)
AMsg(s) == LET m == M(AName(s), AnId, AName(s)) IN IF Pick(1..10) = 1 THEN Pick(OddMsgs) ELSE m
SimReq(s) ==
  LET k == Pick(1..20) IN
  IF k <= 2 THEN [t |-> "Register", name |-> AName(s), gw |-> Pick(Gws)]
  ELSE IF k = 3 THEN [t |-> "Upgrade", name |-> AName(s), gw |-> Pick(Gws)]
  ELSE IF k = 4 THEN [t |-> "Freeze", name |-> AName(s), on |-> Pick(1..3) = 1]
  ELSE IF k <= 8 THEN LET g == Pick(Gws \cup {Nexus}) own == Of(s, g) m == AMsg(s) IN
       [t |-> "Route", by |-> g, m |-> IF own # {} /\ Pick(1..6) > 1 THEN [m EXCEPT !.src = Recase(Pick(own))] ELSE m]
  ELSE IF k <= 10 THEN [t |-> "Declare", by |-> Pick(Workers), names |-> [j \in 1..Pick(0..3) |-> IF Pick(1..6) = 1 THEN RandText ELSE Recase(Pick({x \in Texts : ValidName(x)}))]]
  ELSE IF k <= 12 THEN [t |-> "Put", m |-> AMsg(s)]
  ELSE IF k = 13 THEN [t |-> "Verifier", name |-> AName(s)]
  ELSE IF k = 14 THEN [t |-> "Ask", m |-> IF s.ver # <<>> /\ Pick(1..4) > 1 THEN [AMsg(s) EXCEPT !.src = Recase(s.ver)] ELSE AMsg(s)]
  ELSE IF k = 15 THEN [t |-> "FromNexus", m |-> AMsg(s)]
  ELSE IF k = 16 THEN [t |-> Pick({"Prover", "Sign", "Api"}), name |-> AName(s)]
  ELSE IF k = 17 THEN LET a == RandText IN [t |-> Pick({"Eq", "ApiEq"}), a |-> a, b |-> IF Pick(1..2) = 1 THEN Recase(a) ELSE RandText]
  ELSE IF k <= 19 THEN [t |-> "Text", name |-> RandText, i |-> AnId]
  ELSE [t |-> "Read", text |-> IF Pick(1..2) = 1 THEN RandText \o <<":">> \o RandText ELSE RandText]
MCReqs(s) == IF Sim THEN {SimReq(s)} ELSE AllReqs(s)
MCObs(s) == NamesObs(s, Texts, Ids, Groups)
MCCfg(s) == s.cfg
INSTANCE Driver WITH Inits <- {NamesInit(Cfg)}, Step <- NamesStep, Reqs <- MCReqs, Obs <- MCObs, CfgOf <- MCCfg
----------------------------------------------------------------------------
q == last'.q
ok == last'.err = {}
\* D02: nothing malformed is ever stored or passed on, and everything stored and passed on is in its canonical form
WellFormed(t) == t # <<>> /\ ~(\E i \in 1..Len(t) : t[i] = ":")
D02 == /\ \A c \in DOMAIN st.chains : WellFormed(c) /\ Lower(c) = c
       /\ \A w \in DOMAIN st.sup : \A c \in st.sup[w] : WellFormed(c) /\ Lower(c) = c
       /\ \A x \in DOMAIN st.box : WellFormed(x[1]) /\ Lower(x[1]) = x[1] /\ x[2] # <<>>
\* the spellings of one chain are interchangeable: they find the same thing, and acting on one acts on all
D02b == \A a, b \in Texts : SameChain(a, b) => /\ ChainSeen(st, a) = ChainSeen(st, b) /\ ActiveSeen(st, a) = ActiveSeen(st, b)
                                               /\ \A i \in Ids : BoxSeen(st, a, i) = BoxSeen(st, b, i)
D02c == [][/\ (q.t = "Register" /\ ok => \A a \in Texts : SameChain(a, q.name) => ChainSeen(st', a) = [name |-> Lower(a), gw |-> q.gw, fin |-> FALSE, fout |-> FALSE])
           /\ (q.t = "Route" /\ ok => /\ WellFormed(q.m.src) /\ WellFormed(q.m.dst) /\ q.m.i # <<>>
                                      /\ SameChain(last'.out.m.src, q.m.src) /\ SameChain(last'.out.m.dst, q.m.dst) /\ last'.out.m.i = q.m.i)
           /\ (q.t = "Put" /\ ok => \A a \in Texts, i \in Ids : ~(SameChain(a, q.m.src) /\ i = q.m.i) => BoxSeen(st', a, i) = BoxSeen(st, a, i))]_vars
\* the text of an id reads back as that id, and no other id has that text
D02d == [][q.t = "Text" /\ ok => /\ last'.out.back = <<[chain |-> Lower(q.name), i |-> q.i]>>
                                 /\ \A a \in Texts, i \in Ids : WellFormed(a) /\ i # <<>> /\ IdText(a, i) = last'.out.text => SameChain(a, q.name) /\ i = q.i]_vars
============================================================================
