------------------------------- MODULE Names -------------------------------
(* Chain names, message ids and the other texts of a message, at every place *)
(* where the contracts take them. A text is a sequence of characters; a few   *)
(* of them stand for characters beyond ASCII (see Lower).                      *)
EXTENDS Util
\* State: chains: canonical name -> [gw, fin, fout]; sup: worker -> canonical names it supports; box: <<canonical name, id>> ->
\* content of the gateway's outbox; ver: canonical name of the voting verifier's source chain, or <<>> when none is deployed
LowerChar(c) == CASE c = "A" -> <<"a">> [] c = "B" -> <<"b">> [] c = "K" -> <<"k">>
                  [] c = "AE" -> <<"ae">>           \* Latin capital A with diaeresis
                  [] c = "KEL" -> <<"k">>           \* the Kelvin sign
                  [] c = "IDOT" -> <<"i", "DOT">>   \* capital I with a dot above; DOT is the combining dot
                  [] OTHER -> <<c>>
Lower(t) == FlattenSeq([i \in 1..Len(t) |-> LowerChar(t[i])])
ValidName(t) == t # <<>> /\ ~Contains(t, ":")
SameChain(a, b) == ValidName(a) /\ ValidName(b) /\ Lower(a) = Lower(b)
\* the stricter names of packages/connection-router-api: ^[A-Z]?[a-z]+(-?[0-9]+)?$
Uppers == {"A", "B", "K"}
Lowers == {"a", "b", "k", "i"}
Digits == {"0", "1"}
AllIn(t, S) == \A i \in 1..Len(t) : t[i] \in S
ApiName(t) == \E u \in 0..1, l \in 1..Len(t), h \in 0..1 :
                LET d == Len(t) - u - l - h IN
                /\ d >= 0 /\ (h = 1 => d > 0)
                /\ AllIn(SubSeq(t, 1, u), Uppers) /\ AllIn(SubSeq(t, u + 1, u + l), Lowers)
                /\ AllIn(SubSeq(t, u + l + 1, u + l + h), {"-"}) /\ AllIn(SubSeq(t, u + l + h + 1, Len(t)), Digits)
\* the first position of c in t, or 0
RECURSIVE IndexFrom(_, _, _)
IndexFrom(t, c, i) == IF i > Len(t) THEN 0 ELSE IF t[i] = c THEN i ELSE IndexFrom(t, c, i + 1)
\* a message id as one text: the canonical chain name, a colon, the id; read back by splitting at the first colon
IdText(name, i) == Lower(name) \o <<":">> \o i
ReadId(t) == LET k == IndexFrom(t, ":", 1) IN
             IF k <= 1 \/ k = Len(t) THEN <<>> ELSE <<[chain |-> Lower(SubSeq(t, 1, k - 1)), i |-> SubSeq(t, k + 1, Len(t))]>>

NamesInit(cfg) == [cfg |-> cfg, chains |-> <<>>, sup |-> [w \in cfg.workers |-> {}], box |-> <<>>, ver |-> <<>>]
Bad(t) == G(~ValidName(t), "badName")
Of(s, g) == {c \in DOMAIN s.chains : s.chains[c].gw = g}

NRegister(s, q) ==
  LET e == Bad(q.name) \cup G(Has(s.chains, Lower(q.name)), "chainExists") \cup G(Of(s, q.gw) # {}, "gwTaken")
  IN IF e # {} THEN Fail(s, e) ELSE Ok([s EXCEPT !.chains = Put(@, Lower(q.name), [gw |-> q.gw, fin |-> FALSE, fout |-> FALSE])], [name |-> Lower(q.name)])
NUpgrade(s, q) ==
  LET e == Bad(q.name) \cup G(~Has(s.chains, Lower(q.name)), "noChain") \cup G(Of(s, q.gw) # {}, "gwTaken")
  IN IF e # {} THEN Fail(s, e) ELSE Ok([s EXCEPT !.chains[Lower(q.name)].gw = q.gw], [name |-> Lower(q.name)])
NFreeze(s, q) ==
  LET e == Bad(q.name) \cup G(~Has(s.chains, Lower(q.name)), "noChain")
  IN IF e # {} THEN Fail(s, e)
     ELSE Ok([s EXCEPT !.chains[Lower(q.name)].fin = q.on, !.chains[Lower(q.name)].fout = q.on], [name |-> Lower(q.name)])
\* a message's texts: m = [src, i, dst, sa, da, hash]; the hash is "ok" (32 bytes in hex), "upper" (likewise, in capitals), or malformed
BadMsg(m) == Bad(m.src) \cup Bad(m.dst) \cup G(m.i = <<>>, "badId") \cup G(m.sa = <<>> \/ m.da = <<>>, "badAddress")
             \cup G(m.hash \notin {"ok", "upper"}, "badHash")
Canon(m) == [m EXCEPT !.src = Lower(@), !.dst = Lower(@), !.hash = "ok"]
NRoute(s, q) ==
  LET m == q.m
      nexus == q.by = s.cfg.nexus
      own == Of(s, q.by)
      dst == Lower(m.dst)
      e == IF BadMsg(m) # {} THEN BadMsg(m)
           ELSE (IF nexus THEN G(~Has(s.chains, dst), "nexusNoChain")
                 ELSE IF own = {} THEN {"notGateway"}
                 ELSE G(own # {Lower(m.src)}, "wrongSource") \cup G(\E c \in own : s.chains[c].fin, "srcFrozen"))
                \cup G(Has(s.chains, dst) /\ s.chains[dst].fout, "dstFrozen")
  IN IF e # {} THEN Fail(s, e)
     ELSE Ok(s, [to |-> IF Has(s.chains, dst) THEN s.chains[dst].gw ELSE s.cfg.nexus, m |-> Canon(m)])
NDeclare(s, q) ==
  LET e == UNION {Bad(q.names[k]) : k \in 1..Len(q.names)}
  IN IF e # {} THEN Fail(s, e) ELSE Ok([s EXCEPT !.sup[q.by] = @ \cup {Lower(q.names[k]) : k \in 1..Len(q.names)}], <<>>)
\* the router hands the gateway a message
NPut(s, q) == IF BadMsg(q.m) # {} THEN Fail(s, BadMsg(q.m))
              ELSE Ok([s EXCEPT !.box = Put(@, <<Lower(q.m.src), q.m.i>>, Canon(q.m))], <<>>)
NVerifier(s, q) == IF Bad(q.name) # {} THEN Fail(s, Bad(q.name)) ELSE Ok([s EXCEPT !.ver = Lower(q.name)], <<>>)
NAsk(s, q) == \* asks the voting verifier about a message
  LET e == BadMsg(q.m) \cup G(s.ver = <<>> \/ Lower(q.m.src) # s.ver, "wrongChain")
  IN IF e # {} THEN Fail(s, e) ELSE Ok(s, <<>>)
NProver(s, q) == IF Bad(q.name) # {} THEN Fail(s, Bad(q.name)) ELSE Ok(s, <<>>)
NSign(s, q) == IF Bad(q.name) # {} THEN Fail(s, Bad(q.name)) ELSE Ok(s, [name |-> Lower(q.name)])
NFromNexus(s, q) == \* through the nexus gateway to the router
  IF BadMsg(q.m) # {} THEN Fail(s, BadMsg(q.m)) ELSE Ok(s, [m |-> Canon(q.m)])
NText(s, q) == LET e == Bad(q.name) \cup G(q.i = <<>>, "badId") IN
               IF e # {} THEN Fail(s, e) ELSE Ok(s, [text |-> IdText(q.name, q.i), back |-> ReadId(IdText(q.name, q.i))])
NRead(s, q) == IF ReadId(q.text) = <<>> THEN Fail(s, {"badText"}) ELSE Ok(s, ReadId(q.text))
NApi(s, q) == IF ApiName(q.name) THEN Ok(s, [name |-> q.name]) ELSE Fail(s, {"badName"})
NApiEq(s, q) == IF ApiName(q.a) /\ ApiName(q.b) THEN Ok(s, [eq |-> Lower(q.a) = Lower(q.b)]) ELSE Fail(s, {"badName"})
NEq(s, q) == IF ValidName(q.a) THEN Ok(s, [eq |-> Lower(q.a) = Lower(q.b)]) ELSE Fail(s, {"badName"})
NamesStep(s, q) ==
  CASE q.t = "Register" -> NRegister(s, q) [] q.t = "Upgrade" -> NUpgrade(s, q) [] q.t = "Freeze" -> NFreeze(s, q)
    [] q.t = "Route" -> NRoute(s, q) [] q.t = "Declare" -> NDeclare(s, q) [] q.t = "Put" -> NPut(s, q)
    [] q.t = "Verifier" -> NVerifier(s, q) [] q.t = "Ask" -> NAsk(s, q) [] q.t = "Prover" -> NProver(s, q)
    [] q.t = "Sign" -> NSign(s, q) [] q.t = "FromNexus" -> NFromNexus(s, q)
    [] q.t = "Text" -> NText(s, q) [] q.t = "Read" -> NRead(s, q)
    [] q.t = "Api" -> NApi(s, q) [] q.t = "ApiEq" -> NApiEq(s, q) [] q.t = "Eq" -> NEq(s, q)
\* what every spelling of a name finds
ChainSeen(s, t) == IF ValidName(t) /\ Has(s.chains, Lower(t)) THEN [name |-> Lower(t)] @@ s.chains[Lower(t)] ELSE [none |-> TRUE]
ActiveSeen(s, t) == IF ~ValidName(t) THEN {"bad"} ELSE {w \in DOMAIN s.sup : Lower(t) \in s.sup[w]}
BoxSeen(s, t, i) == IF ValidName(t) /\ i # <<>> /\ Has(s.box, <<Lower(t), i>>)
                    THEN s.box[<<Lower(t), i>>] ELSE [none |-> TRUE]
NamesObs(s, Names, Ids, Groups) ==
  [chains |-> IF "chain" \in Groups THEN {[t |-> t, is |-> ChainSeen(s, t)] : t \in Names} ELSE {},
   active |-> IF "support" \in Groups THEN {[t |-> t, is |-> ActiveSeen(s, t)] : t \in Names} ELSE {},
   box |-> IF "box" \in Groups THEN {[t |-> t, i |-> i, is |-> BoxSeen(s, t, i)] : t \in Names, i \in Ids} ELSE {}]
============================================================================
