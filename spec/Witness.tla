------------------------------ MODULE Witness ------------------------------
(* ampd: how a worker's daemon answers the events of the Axelar chain, given what it sees of the source chain.      *)
(*   handlers/{evm,sui}_verify_msg.rs, handlers/{evm,sui}_verify_worker_set.rs, handlers/multisig.rs, evm/*.rs,     *)
(*   sui/*.rs, tofnd/grpc.rs                                                                                        *)
EXTENDS Util
\* cfg = [chain, me]: the chain it watches ("ethereum", which marks final blocks itself, "sui", where a transaction that is in a
\*   block is final, or another one) and its account;
\*   it answers the verifier "ver" and the multisig contract "mul"
\* recs: transaction -> [blk, logs]: its receipt; blk = 0 while it is pending.  A log is [ix, by, own, k, c]: its index, the
\*   contract that wrote it, whether it names the transaction it is in, its kind ("call", "ops", "none") and content
\* head, fin: the source chain's latest block and the one it marks final
\* node: "ok"; "norec": it does not answer for receipts; "nofin": it does not mark a block final; "down"
\* signer: the keys held by the signing service answer; h: the height of the Axelar chain
Huge == 2147483647
WitnessInit(cfg) == [cfg |-> cfg, recs |-> <<>>, head |-> 1, fin |-> 1, node |-> "ok", signer |-> TRUE, h |-> 1]

Sui(s) == s.cfg.chain = "sui"
Held == {"k1", "k2"}
\* the last final block, -1 when none is
Final(s, conf) == IF Sui(s) THEN Huge ELSE IF s.cfg.chain = "ethereum" THEN s.fin
                  ELSE IF conf > s.head THEN 0 ELSE s.head - conf + 1
Final_known(s) == IF Sui(s) THEN s.node \in {"ok", "nofin"} ELSE IF s.cfg.chain = "ethereum" THEN s.node \in {"ok", "norec"} ELSE s.node # "down"
Rec_known(s) == s.node \in {"ok", "nofin"}
Same_call(a, b) == a.src = b.src /\ a.dst = b.dst /\ a.da = b.da /\ a.ph = b.ph
\* the log of that index: the first one, if the receipt has several
LogAt(r, ix) == LET at == SelectSeq(r.logs, LAMBDA l : l.ix = ix) IN IF at = <<>> THEN <<>> ELSE <<at[1]>>
Seen(s, conf, gw, tx, ix, Same(_)) ==
  /\ Rec_known(s)
  /\ Has(s.recs, tx)
  /\ LET r == s.recs[tx] l == LogAt(r, ix) IN
     /\ r.blk > 0 /\ r.blk <= Final(s, conf)
     /\ l # <<>> /\ l[1].by = gw /\ (l[1].own \/ Sui(s)) /\ Same(l[1])
Vote(x) == IF x THEN "S" ELSE "N"

Silent == [n |-> 0, to |-> "", poll |-> 0, votes |-> <<>>, failed |-> ""]
Fails(x) == [Silent EXCEPT !.failed = x]
Asked(s, q) == q.from = "ver" /\ q.chain = s.cfg.chain /\ s.cfg.me \in q.part /\ s.h < q.exp
WMsgs(s, q) ==
  IF ~Asked(s, q) THEN Silent
  ELSE IF ~Final_known(s) THEN Fails("messages")
  ELSE LET one(k) ==
             LET m == q.msgs[k] IN
             Vote((q.form = "good" \/ k < Len(q.msgs)) /\
                  Seen(s, q.conf, q.gw, m.tx, m.ix, LAMBDA l : l.k = "call" /\ Same_call(l.c, m.c)))
       IN [n |-> 1, to |-> q.from, poll |-> q.poll, votes |-> [k \in 1..Len(q.msgs) |-> one(k)], failed |-> ""]
WSet(s, q) ==
  IF ~Asked(s, q) THEN Silent
  \* what cannot be on the chain needs no looking
  ELSE IF q.form # "good" \/ (Sui(s) /\ q.ops = "o5") THEN [n |-> 1, to |-> q.from, poll |-> q.poll, failed |-> "", votes |-> <<"N">>]
  ELSE IF ~Final_known(s) \/ ~Rec_known(s) THEN Fails("sets")
  ELSE [n |-> 1, to |-> q.from, poll |-> q.poll, failed |-> "",
        votes |-> <<Vote(Seen(s, q.conf, q.gw, q.tx, q.ix, LAMBDA l : l.k = "ops" /\ l.c.ops = q.ops))>>]
Quiet == [n |-> 0, to |-> "", session |-> 0, key |-> "", v |-> 0, failed |-> ""]
\* keys: worker -> the key it is to sign with
WSign(s, q) ==
  IF q.from # "mul" \/ ~Has(q.keys, s.cfg.me) THEN Quiet
  ELSE IF ~s.signer \/ q.keys[s.cfg.me] \notin Held THEN [Quiet EXCEPT !.failed = "signer"]
  ELSE [n |-> 1, to |-> q.from, session |-> q.session, key |-> q.keys[s.cfg.me], v |-> q.v, failed |-> ""]

WitnessStep(s, q) ==
  CASE q.t = "Mine" -> Ok([s EXCEPT !.recs = Put(@, q.tx, [blk |-> q.blk, logs |-> q.logs])], <<>>)
    [] q.t = "Drop" -> Ok([s EXCEPT !.recs = Without(@, q.tx)], <<>>)
    [] q.t = "Grow" -> Ok([s EXCEPT !.head = q.head, !.fin = q.fin], <<>>)
    [] q.t = "Node" -> Ok([s EXCEPT !.node = q.x], <<>>)
    [] q.t = "Signer" -> Ok([s EXCEPT !.signer = q.x], <<>>)
    [] q.t = "Height" -> Ok([s EXCEPT !.h = q.h], <<>>)
    [] q.t = "Msgs" -> Ok(s, WMsgs(s, q))
    [] q.t = "Set" -> Ok(s, WSet(s, q))
    [] q.t = "Sign" -> Ok(s, WSign(s, q))
    \* events of the same kinds by other contracts, whatever they hold
    [] q.t = "Junk" -> Ok(s, [n |-> 0, failed |-> ""])
=============================================================================
