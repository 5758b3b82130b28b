------------------------------- MODULE Prover -------------------------------
(* contracts/multisig-prover, together with the gateway whose outbox it proves and the signing contract. The service
   registry and the verifier, each modelled on its own, are neighbours that answer what they are told to. *)
EXTENDS Util
\* State: cfg = [enc: "abi"/"bcs", kt: "ecdsa"/"ed25519", thr: <<n, d>>, diff, chain] ; h: block height
\*   allowed: may the prover start sessions at present ; active: the active workers ; keys: <<worker, key type>> -> key name
\*   out: the messages delivered to the gateway ; conf: the operator lists the verifier reports as confirmed
\*   cur, nxt: current and pending worker set, <<>> or <<set>> ; regs: the sets registered for signing
\*   batches: the stored batches, identity -> content ; sess: the signing sessions
\* A worker set is [who: worker -> key name, thr, at]; all weights are 1. A batch content is [msgs, ws]: the messages in
\* order and, as <<set>> or <<>>, the operators it announces first. Its identity is [ids: the ids as a bag, ws].
\* Messages are [c, i, d, v]; the contents of v = 9 have a destination address that is no address on the chain.

ProverInit(cfg) == [cfg |-> cfg, h |-> 0, allowed |-> TRUE, active |-> {}, keys |-> <<>>, out |-> {}, conf |-> {},
                    cur |-> <<>>, nxt |-> <<>>, regs |-> {}, batches |-> <<>>, sess |-> <<>>]

MsgId(m) == <<m.c, m.i>>
Bag(s) == [x \in {s[k] : k \in 1..Len(s)} |-> Cardinality({k \in 1..Len(s) : s[k] = x})]
OpsOf(set) == [keys |-> [x \in {set.who[w] : w \in DOMAIN set.who} |-> Cardinality({w \in DOMAIN set.who : set.who[w] = x})],
               thr |-> set.thr]
Quorum(cfg, n) == CeilDiv(n * cfg.thr[1], cfg.thr[2])

KeyOf(s, w) == s.keys[<<w, s.cfg.kt>>]
CanForm(s) == G(s.active = {}, "noWorkers") \cup G(\E w \in s.active : ~Has(s.keys, <<w, s.cfg.kt>>), "noKey")
Formed(s) == [who |-> [w \in s.active |-> KeyOf(s, w)], thr |-> Quorum(s.cfg, Cardinality(s.active)), at |-> s.h]
Members(set) == {<<w, set.who[w]>> : w \in DOMAIN set.who}
Diff(a, b) == Cardinality(Members(a) \ Members(b)) + Cardinality(Members(b) \ Members(a))
Moved(s) == Diff(Formed(s), s.cur[1]) > s.cfg.diff
Conflict(s) == s.nxt # <<>> /\ (s.nxt[1].who # Formed(s).who \/ s.nxt[1].thr # Formed(s).thr)

Start(s, key) == Append(s.sess, [batch |-> key, set |-> s.cur[1], sigs |-> <<>>, done |-> FALSE])
Started(s, content) == [session |-> <<Len(s.sess) + 1>>, set |-> s.cur, content |-> content, registered |-> <<>>]

PConstruct(s, q) ==
  LET unknown == \E k \in 1..Len(q.ids) : ~\E m \in s.out : MsgId(m) = q.ids[k]
      msgs == MapSeq(q.ids, LAMBDA x : CHOOSE m \in s.out : MsgId(m) = x)
      foreign == \E k \in 1..Len(msgs) : msgs[k].d # s.cfg.chain
      old == [ids |-> Bag(q.ids), ws |-> <<>>]
      reuse == Has(s.batches, old)
      e0 == G(s.cur = <<>>, "noSet") \cup G(~s.allowed, "notAllowed")
  IN IF unknown THEN Fail(s, {"unknown"})
     ELSE IF foreign THEN Fail(s, {"foreign"})
     ELSE IF e0 # {} THEN Fail(s, e0)
     ELSE IF reuse THEN Ok([s EXCEPT !.sess = Start(s, old)], Started(s, s.batches[old]))
     ELSE LET e1 == CanForm(s) IN
          IF e1 # {} THEN Fail(s, e1)
          ELSE LET ws == IF Moved(s) THEN <<Formed(s)>> ELSE <<>>
                   e2 == G(ws # <<>> /\ Conflict(s), "inProgress") \cup G(\E k \in 1..Len(msgs) : msgs[k].v = 9, "badAddress")
                   key == [ids |-> Bag(q.ids), ws |-> ws]
                   content == IF Has(s.batches, key) THEN s.batches[key] ELSE [msgs |-> msgs, ws |-> ws]
               IN IF e2 # {} THEN Fail(s, e2)
                  ELSE Ok([s EXCEPT !.nxt = IF ws # <<>> THEN ws ELSE @, !.batches = Put(@, key, content), !.sess = Start(s, key)],
                          Started(s, content))

PUpdate(s, q) ==
  IF CanForm(s) # {} THEN Fail(s, CanForm(s))
  ELSE LET ws == <<Formed(s)>> IN
       IF s.cur = <<>> THEN Ok([s EXCEPT !.cur = ws, !.regs = @ \cup {ws[1]}],
                               [session |-> <<>>, set |-> <<>>, content |-> <<>>, registered |-> ws])
       ELSE LET e == G(~Moved(s), "unchanged") \cup G(Moved(s) /\ Conflict(s), "inProgress") \cup G(~s.allowed, "notAllowed")
                key == [ids |-> <<>>, ws |-> ws]
                content == [msgs |-> <<>>, ws |-> ws]
            IN IF e # {} THEN Fail(s, e)
               ELSE Ok([s EXCEPT !.nxt = ws, !.batches = Put(@, key, content), !.sess = Start(s, key)], Started(s, content))

PConfirm(s, q) ==
  LET e == IF s.nxt = <<>> THEN {"noPending"} ELSE G(OpsOf(s.nxt[1]) \notin s.conf, "notConfirmed") IN
  IF e # {} THEN Fail(s, e)
  ELSE Ok([s EXCEPT !.cur = s.nxt, !.nxt = <<>>, !.regs = @ \cup {s.nxt[1]}],
          [session |-> <<>>, set |-> <<>>, content |-> <<>>, registered |-> s.nxt])

\* signatures, as in Multisig.tla (no grace period): x = "ok", or "alt", the other encoding ECDSA allows, or "junk"
PSign(s, q) ==
  IF q.session \notin DOMAIN s.sess THEN Fail(s, {"noSession"})
  ELSE LET x == s.sess[q.session]
           e == G(q.by \notin DOMAIN x.set.who, "notMember") \cup G(q.by \in DOMAIN x.sigs, "duplicate")
                \cup G(x.done, "closed") \cup G(q.x = "junk" \/ (q.x = "alt" /\ s.cfg.kt # "ecdsa"), "badSignature")
       IN IF e # {} THEN Fail(s, e)
          ELSE LET sigs == Put(x.sigs, q.by, q.x) IN
               Ok([s EXCEPT !.sess[q.session].sigs = sigs,
                            !.sess[q.session].done = Cardinality(DOMAIN sigs) >= x.set.thr,
                            !.h = @ + 1], <<>>)

ProverStep(s, q) ==
  CASE q.t = "Advance" -> Ok([s EXCEPT !.h = @ + q.n], <<>>)
    [] q.t = "SetActive" -> Ok([s EXCEPT !.active = q.who], <<>>)
    [] q.t = "RegisterKey" -> Ok([s EXCEPT !.keys = Put(@, <<q.by, q.ty>>, q.key)], <<>>)
    [] q.t = "Allow" -> Ok([s EXCEPT !.allowed = q.on], <<>>)
    [] q.t = "SetConf" -> Ok([s EXCEPT !.conf = IF q.ops \in @ THEN @ \ {q.ops} ELSE @ \cup {q.ops}], <<>>)
    [] q.t = "Deliver" -> Ok([s EXCEPT !.out = @ \cup {q.m}], <<>>)
    [] q.t = "Construct" -> PConstruct(s, q)
    [] q.t = "Update" -> PUpdate(s, q)
    [] q.t = "Confirm" -> PConfirm(s, q)
    [] q.t = "Sign" -> PSign(s, q)

\* what the queries report: the current set, and for every session its proof. A finished proof carries the batch and the
\* operators that were to sign it, ascending, and signatures of theirs, in their order, which are all in the one form the
\* destination accepts, verify over the batch and are enough.
ProofObs(s, n) ==
  LET x == s.sess[n] b == s.batches[x.batch] IN
  [ids |-> MapSeq(b.msgs, MsgId), msgs |-> b.msgs, ws |-> b.ws,
   proof |-> IF x.done THEN <<[same |-> TRUE, ops |-> OpsOf(x.set), ascending |-> TRUE, valid |-> TRUE, enough |-> TRUE]>> ELSE <<>>]
===========================================================================
