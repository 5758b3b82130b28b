------------------------------- MODULE Queue -------------------------------
(* ampd: the queue between the handlers and the Axelar chain.          queue/queued_broadcaster.rs, queue/msg_queue.rs *)
EXTENDS Util
\* cfg = [limit, cap]: the gas a batch may cost, the messages that may wait to be queued; messages are numbered from 1 as they come
\* gas: what the queued ones cost, q: their number (the last q that came); n: how many came; since: time (ms) since the interval
\*   began; ended: "" | "ok" | "err"; refused, unpriced: broadcasting, and estimating gas, fails
Period == 4007
QueueInit(cfg) == [cfg |-> cfg, q |-> 0, gas |-> 0, n |-> 0, since |-> 0, ended |-> "", refused |-> FALSE, unpriced |-> FALSE]

\* s, and the batches that leave it
Nothing(s) == [s |-> s, b |-> <<>>]
Flush(s) ==
  IF s.q = 0 THEN Nothing(s)
  ELSE IF s.refused THEN Nothing([s EXCEPT !.q = 0, !.gas = 0, !.ended = "err"])
  ELSE [s |-> [s EXCEPT !.q = 0, !.gas = 0], b |-> <<[i \in 1..s.q |-> s.n - s.q + i]>>]
Come(s, g) ==
  IF s.ended # "" THEN Nothing(s)
  ELSE IF s.unpriced THEN Nothing([s EXCEPT !.ended = "err", !.q = 0, !.gas = 0])
  ELSE LET f == IF g + s.gas >= s.cfg.limit THEN Flush([s EXCEPT !.since = 0]) ELSE Nothing(s) IN
       IF f.s.ended # "" THEN f
       ELSE [s |-> [f.s EXCEPT !.q = @ + 1, !.gas = @ + g, !.n = @ + 1], b |-> f.b]
RECURSIVE ComeAll(_, _)
ComeAll(s, gs) == IF gs = <<>> THEN Nothing(s)
                  ELSE LET f == Come(s, Head(gs)) r == ComeAll(f.s, Tail(gs)) IN [s |-> r.s, b |-> f.b \o r.b]
Out(r) == Ok(r.s, [batches |-> r.b, ended |-> r.s.ended])
Elapse(s, d) == IF s.ended # "" THEN Nothing(s)
                ELSE LET t == s.since + d * 1000 f == IF t >= Period THEN Flush(s) ELSE Nothing(s) IN
                     [s |-> [f.s EXCEPT !.since = IF f.s.ended = "" THEN t % Period ELSE @], b |-> f.b]
QueueStep(s, q) ==
  CASE q.t = "Push" -> Out(ComeAll(s, q.gas))
    [] q.t = "Wait" -> Out(Elapse(s, q.d))
    [] q.t = "Force" -> Out(IF s.ended # "" THEN Nothing(s) ELSE Flush([s EXCEPT !.since = 0]))
    \* the handlers are gone
    [] q.t = "Close" -> Out(IF s.ended # "" THEN Nothing(s)
                            ELSE LET f == Flush(s) IN [f EXCEPT !.s = [@ EXCEPT !.ended = IF @ = "" THEN "ok" ELSE @]])
    [] q.t = "Refuse" -> Out(Nothing([s EXCEPT !.refused = q.x]))
    [] q.t = "Unprice" -> Out(Nothing([s EXCEPT !.unpriced = q.x]))
=============================================================================
