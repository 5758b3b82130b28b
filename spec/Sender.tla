------------------------------- MODULE Sender -------------------------------
(* ampd: the worker's transactions on the Axelar chain.       broadcaster.rs, broadcaster/{tx,accounts,dec_coin}.rs, commands/ *)
EXTENDS Util
\* cfg = [adj, price: <<numerator, denominator>>, retries, num, seq: the account's number and sequence at first,
\*        key: in the state file ("": none), signer: a signer is configured]
\* seq: the account's sequence; account: how the node answers for it; on: connected; link: the sequence the worker counts;
\* keygens: keys made
SenderInit(cfg) == [cfg |-> cfg, seq |-> cfg.seq, account |-> "ok", on |-> FALSE, link |-> 0, keygens |-> 0]
DivUp(a, b) == (a + b - 1) \div b
RECURSIVE Total(_)
Total(g) == IF g = <<>> THEN 0 ELSE Head(g) + Total(Tail(g))
\* q.list: the messages as indices of q.gas; a batch may have a message more than once
GasOf(q) == Total([i \in 1..Len(q.list) |-> q.gas[q.list[i]]])
GasLimit(s, g) == (g * s.cfg.adj[1]) \div s.cfg.adj[2]
Fee(s, g) == DivUp(GasLimit(s, g) * s.cfg.price[1], s.cfg.price[2])

Reached(s) == CASE s.account = "ok" -> "ok" [] s.account \in {"down", "unknown"} -> "response"
                [] s.account = "none" -> "unknown" [] s.account = "bad" -> "malformed"
Connect(s) == [s EXCEPT !.on = s.account = "ok", !.link = IF s.account = "ok" THEN s.seq ELSE 0]
Lost(s) == [s EXCEPT !.on = FALSE, !.link = 0]
\* the estimate is of a transaction that could be sent
Priced(s, q) == q.how = "ok" /\ s.link = s.seq
\* q = [gas: of all messages, how, sign, take, lag, code]; [s, r, got, polls], got: the transaction if one is included
Deliver(s, q, gas, msgs) ==
  LET tx == [seq |-> s.link, gas |-> GasLimit(s, gas), fee |-> Fee(s, gas), msgs |-> msgs]
      fail(r) == [s |-> Lost(s), r |-> r, got |-> <<>>, polls |-> 0]
      t == [s EXCEPT !.seq = @ + 1] IN
  CASE ~Priced(s, q) -> fail("gas")
    [] Priced(s, q) /\ ~q.sign -> fail("build")
    [] Priced(s, q) /\ q.sign /\ q.take = "down" -> fail("broadcast")
    [] Priced(s, q) /\ q.sign /\ q.take = "none" -> [s |-> Lost(t), r |-> "broadcast", got |-> <<tx>>, polls |-> 0]
    [] OTHER ->
       IF q.lag > s.cfg.retries THEN [s |-> Lost(t), r |-> "confirm", got |-> <<tx>>, polls |-> s.cfg.retries + 1]
       ELSE IF q.code # 0 THEN [s |-> Lost(t), r |-> "exec", got |-> <<tx>>, polls |-> q.lag + 1]
       ELSE [s |-> [t EXCEPT !.link = @ + 1], r |-> "ok", got |-> <<tx>>, polls |-> q.lag + 1]

\* a command's message
Payload(c) ==
  CASE c.t = "Bond" -> [to |-> "reg", msg |-> [t |-> "Bond", svc |-> c.svc], funds |-> <<[n |-> c.n, d |-> c.d]>>]
    [] c.t = "Declare" -> [to |-> "reg", msg |-> [t |-> "Declare", svc |-> c.svc, chains |-> c.chains], funds |-> <<>>]
    [] c.t = "Register" -> [to |-> "mul", msg |-> [t |-> "Register", mine |-> TRUE], funds |-> <<>>]
Command(s, q) ==
  LET c == q.c
      k == [s EXCEPT !.keygens = IF s.cfg.key = "" THEN @ + 1 ELSE @]
      fail(x) == [s |-> x, r |-> "err", got |-> <<>>]
      w == Connect(k)
      d == Deliver(w, q, q.gas, <<Payload(c)>>)
      back(x) == [x EXCEPT !.on = s.on, !.link = s.link] IN
  IF c.t = "Address" THEN [s |-> k, r |-> "ok", got |-> <<>>]
  ELSE IF c.t = "Bond" /\ c.d = "u-axl" THEN fail(s)
  ELSE IF c.t = "Register" /\ ~s.cfg.signer THEN fail(k)
  ELSE IF ~w.on THEN fail(k)
  ELSE [s |-> back(d.s), r |-> IF d.r = "ok" THEN "ok" ELSE "err", got |-> d.got]

SenderStep(s, q) ==
  CASE q.t = "Account" -> Ok([s EXCEPT !.account = q.x], <<>>)
    [] q.t = "Other" -> Ok([s EXCEPT !.seq = @ + 1], <<>>)
    [] q.t = "Connect" -> Ok(Connect(s), [r |-> Reached(s)])
    [] q.t = "Est" -> LET g == GasOf(q) ok == Priced(s, q) IN
                      Ok(IF ok THEN s ELSE Lost(s), [r |-> IF ok THEN "ok" ELSE "gas", gas |-> IF ok THEN GasLimit(s, g) ELSE 0,
                                                     fee |-> IF ok THEN Fee(s, g) ELSE 0])
    [] q.t = "Send" -> LET d == Deliver(s, q, GasOf(q), q.list) IN Ok(d.s, [r |-> d.r, got |-> d.got, polls |-> d.polls])
    [] q.t = "Cmd" -> LET d == Command(s, q) IN Ok(d.s, [r |-> d.r, got |-> d.got])
=============================================================================
