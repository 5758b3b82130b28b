------------------------------ MODULE Gateway ------------------------------
(* contracts/gateway, optionally behind contracts/aggregate-verifier (the verifier front-end). *)
EXTENDS Util
\* State: cfg = [router, front] ; out: id of a delivered message -> the message ; ver: what the verifier reports as
\* verified ; mode: "up", or which neighbour fails at the moment: "qdown"/"xdown" the verifier's queries/executions,
\* "rdown" the router. An id is a pair <<chain, id on the chain>>.

GatewayInit(cfg) == [cfg |-> cfg, out |-> <<>>, ver |-> {}, mode |-> "up"]

MsgId(m) == <<m.c, m.i>>
DupIds(msgs) == \E i, j \in 1..Len(msgs) : i # j /\ MsgId(msgs[i]) = MsgId(msgs[j])
Nothing == [verifier |-> <<>>, router |-> <<>>, routed |-> <<>>, failed |-> <<>>]
VerifiedOf(s, msgs) == SelectSeq(msgs, LAMBDA m : m \in s.ver)
UnverifiedOf(s, msgs) == SelectSeq(msgs, LAMBDA m : m \notin s.ver)

GVerify(s, q) ==
  LET un == UnverifiedOf(s, q.msgs)
      e == IF q.msgs = <<>> THEN {}
           ELSE G(DupIds(q.msgs), "dupId")
                \cup G(s.mode = "qdown", "verifierQuery")
                \cup G(~DupIds(q.msgs) /\ un # <<>> /\ s.mode = "xdown", "verifierRefuses")
  IN IF e # {} THEN Fail(s, e) ELSE Ok(s, [Nothing EXCEPT !.verifier = un])

GDeliver(s, q) == \* from the router
  IF DupIds(q.msgs) THEN Fail(s, {"dupId"})
  ELSE Ok([s EXCEPT !.out = [x \in {MsgId(q.msgs[i]) : i \in 1..Len(q.msgs)} |->
                               CHOOSE m \in {q.msgs[i] : i \in 1..Len(q.msgs)} : MsgId(m) = x] @@ @],
          [Nothing EXCEPT !.routed = q.msgs])

GForward(s, q) == \* from anybody else
  LET good == VerifiedOf(s, q.msgs)
      e == G(DupIds(q.msgs), "dupId") \cup G(s.mode = "qdown", "verifierQuery")
           \cup G(~DupIds(q.msgs) /\ good # <<>> /\ s.mode = "rdown", "routerRefuses")
  IN IF e # {} THEN Fail(s, e)
     ELSE Ok(s, [Nothing EXCEPT !.router = good, !.routed = good, !.failed = UnverifiedOf(s, q.msgs)])

GGet(s, q) ==
  IF \E i \in 1..Len(q.ids) : ~Has(s.out, q.ids[i]) THEN Fail(s, {"notDelivered"})
  ELSE Ok(s, [i \in 1..Len(q.ids) |-> s.out[q.ids[i]]])

\* straight to the front-end: passes on whatever it is given and returns the verifier's answer
GFrontVerify(s, q) ==
  IF s.mode = "xdown" THEN Fail(s, {"verifierRefuses"})
  ELSE Ok(s, [verifier |-> q.msgs, data |-> [i \in 1..Len(q.msgs) |-> <<MsgId(q.msgs[i]), q.msgs[i] \in s.ver>>]])
GFrontQuery(s, q) ==
  IF s.mode = "qdown" THEN Fail(s, {"verifierQuery"})
  ELSE Ok(s, [i \in 1..Len(q.msgs) |-> <<MsgId(q.msgs[i]), q.msgs[i] \in s.ver>>])

GatewayStep(s, q) ==
  CASE q.t = "SetVer" -> Ok([s EXCEPT !.ver = IF q.m \in @ THEN @ \ {q.m} ELSE @ \cup {q.m}], <<>>)
    [] q.t = "SetMode" -> Ok([s EXCEPT !.mode = q.mode], <<>>)
    [] q.t = "Verify" -> GVerify(s, q)
    [] q.t = "Route" -> IF q.by = s.cfg.router THEN GDeliver(s, q) ELSE GForward(s, q)
    [] q.t = "Get" -> GGet(s, q)
    [] q.t = "FrontVerify" -> GFrontVerify(s, q)
    [] q.t = "FrontQuery" -> GFrontQuery(s, q)
===========================================================================
