------------------------------ MODULE Batching ------------------------------
(* contracts/batching: a list of calls of which the first part must succeed and the second part may fail. *)
EXTENDS Util
\* State: bal: what the batching contract itself owns ; paid: what it has sent to the payee ; log: the successful calls
\* received by a neighbour contract, in order ; got: the coins that came with them.
\* A call: [k |-> "call", n] a call of the neighbour ; "bad": one it refuses, after having noted it ; "send": a payment
\* of n ; "fund": a call of the neighbour with n coins ; "nest": a batch of its own (fields must, can) ; "none": a call
\* to nobody.
BatchingInit(cfg) == [cfg |-> cfg, bal |-> cfg.bal, paid |-> 0, got |-> 0, log |-> <<>>]

RECURSIVE RunCall(_, _), RunMust(_, _), RunCan(_, _, _), RunBatch(_, _, _)
Done(s, failed) == [ok |-> TRUE, s |-> s, failed |-> failed]
Refused == [ok |-> FALSE]
RunCall(s, c) ==
  CASE c.k = "call" -> Done([s EXCEPT !.log = Append(@, c.n)], <<>>)
    [] c.k = "bad" -> Refused
    [] c.k = "none" -> Refused
    [] c.k = "send" -> IF c.n > s.bal \/ c.n = 0 THEN Refused ELSE Done([s EXCEPT !.bal = @ - c.n, !.paid = @ + c.n], <<>>)
    [] c.k = "fund" -> IF c.n > s.bal THEN Refused ELSE Done([s EXCEPT !.bal = @ - c.n, !.got = @ + c.n, !.log = Append(@, c.n)], <<>>)
    [] c.k = "nest" -> RunBatch(s, c.must, c.can)
RunMust(s, cs) ==
  IF cs = <<>> THEN Done(s, <<>>)
  ELSE LET r == RunCall(s, cs[1]) IN
       IF ~r.ok THEN Refused
       ELSE LET t == RunMust(r.s, Tail(cs)) IN IF ~t.ok THEN Refused ELSE Done(t.s, r.failed \o t.failed)
RunCan(s, cs, k) ==
  IF cs = <<>> THEN Done(s, <<>>)
  ELSE LET r == RunCall(s, cs[1]) t == RunCan(IF r.ok THEN r.s ELSE s, Tail(cs), k + 1) IN
       Done(t.s, (IF r.ok THEN r.failed ELSE <<k>>) \o t.failed)
RunBatch(s, must, can) ==
  LET r == RunMust(s, must) IN
  IF ~r.ok THEN Refused ELSE LET t == RunCan(r.s, can, 0) IN Done(t.s, r.failed \o t.failed)

BatchingStep(s, q) ==
  LET r == RunBatch(s, q.must, q.can) IN
  IF ~r.ok THEN Fail(s, {"mandatory"}) ELSE Ok(r.s, [failed |-> r.failed])
===========================================================================
