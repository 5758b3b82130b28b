------------------------------ MODULE Assembly ------------------------------
(* contracts/multisig-prover's answer to "is this proof finished", for whatever the signing contract, which is a          *)
(* neighbour here, says about the session: any members with any weights, any of them having signed, before and after the *)
(* session was completed.                                                                                                *)
EXTENDS Util
\* State: cfg = [enc, kt, scale, chain], sess: session name -> the messages its batch approves
\* An answer of the signing contract: members, a sequence of [k: key, w: weight, signed: the form of the signature or "no"],
\* the threshold, and whether the session is completed.
AssemblyInit(cfg) == [cfg |-> cfg, sess |-> <<>>, batches |-> <<>>]
MsgId(m) == <<m.c, m.i>>
Bag(s) == [x \in {s[k] : k \in 1..Len(s)} |-> Cardinality({k \in 1..Len(s) : s[k] = x})]
SignedWeight(members) == SumF([k \in 1..Len(members) |-> IF members[k].signed = "no" THEN 0 ELSE members[k].w])
\* the signing contract's own rule
Consistent(q) == q.done => SignedWeight(q.members) >= q.thr

\* the neighbour may give a session any number, but never the same twice
AOpen(s, q) == IF Has(s.sess, q.sid) THEN Fail(s, {"usedSession"})
               ELSE LET b == Bag(MapSeq(q.msgs, MsgId))
                    old == Get(s.batches, b, q.msgs)     \* a batch of the same messages is the same batch
                IN Ok([s EXCEPT !.sess = Put(@, q.sid, old), !.batches = Put(@, b, old)], [session |-> q.sid])
\* a finished proof: the batch that was signed, all the members by address with their weights and the threshold, and
\* valid signatures that reach it
AAsk(s, q) ==
  IF ~Has(s.sess, q.sid) THEN Fail(s, {"noSession"})
  ELSE Ok(s, [ids |-> MapSeq(s.sess[q.sid], MsgId), msgs |-> s.sess[q.sid], ws |-> <<>>,
              proof |-> IF ~q.done THEN <<>>
                        ELSE <<[same |-> TRUE, members |-> {<<q.members[k].k, q.members[k].w>> : k \in 1..Len(q.members)}, thr |-> q.thr,
                                ascending |-> TRUE, valid |-> TRUE, enough |-> TRUE]>>])
AssemblyStep(s, q) == CASE q.t = "Open" -> AOpen(s, q) [] q.t = "Ask" -> AAsk(s, q)
=============================================================================
