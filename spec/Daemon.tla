------------------------------- MODULE Daemon -------------------------------
(* ampd: how the daemon follows the Axelar chain, over restarts and crashes.  lib.rs, event_sub.rs, event_processor.rs, *)
(*   state.rs, handlers/end_block.rs, block_height_monitor.rs, commands/daemon.rs                                       *)
EXTENDS Util
\* chain: the blocks, each the sequence of the handlers that its events concern; event i of block b is numbered 10 b + i
\* tip: the block that the node reports as its latest; down: it reports none
\* file: handler -> the last block it completed, as persisted; key: the daemon's key is persisted; keygens: how often it made one
\* on: it runs, with handlers hs; next: the next block to look at; at: handler -> the next block to handle; done: handler -> the
\*   last one completed; pend: handler -> what it answered and is not broadcast yet; refused: broadcasting fails
\* events "late" are polls that have expired: known: the latest block that the daemon is sure to have heard of; late: when the last
\*   of these polls expires (the node reports no block before that any more)
All == {"messages", "sets", "signer"}
Off == [on |-> FALSE, hs |-> {}, next |-> 0, at |-> <<>>, done |-> <<>>, pend |-> <<>>]
DaemonInit(cfg) == [cfg |-> cfg, chain |-> <<<<>>>>, tip |-> 1, down |-> FALSE, file |-> <<>>, key |-> FALSE, keygens |-> 0,
                    refused |-> FALSE, r |-> Off, known |-> 0, late |-> 0]

\* the events that concern h in blocks a to b
RECURSIVE Events(_, _, _, _)
Events(chain, h, a, b) ==
  IF a > b THEN <<>>
  ELSE LET blk == chain[a]
           here == SelectSeq([i \in 1..Len(blk) |-> [h |-> blk[i], n |-> 10 * a + i]], LAMBDA x : x.h = h)
       IN [i \in 1..Len(here) |-> here[i].n] \o Events(chain, h, a + 1, b)
Follow(s) ==
  IF s.tip < s.r.next THEN s.r
  ELSE [s.r EXCEPT !.next = s.tip + 1,
                   !.at = [h \in s.r.hs |-> Max2(s.r.at[h], s.tip + 1)],
                   !.done = [h \in {x \in s.r.hs : s.r.at[x] <= s.tip} |-> s.tip] @@ @,
                   !.pend = [h \in s.r.hs |-> @[h] \o Events(s.chain, h, s.r.at[h], s.tip)]]
\* what is broadcast, by handler
None == [h \in All |-> <<>>]
Full(p) == [h \in All |-> Get(p, h, <<>>)]
Any_(p) == \E h \in DOMAIN p : p[h] # <<>>
\* it ends on its own or after a signal: the queue is emptied, the state is written
End(s, how, out) == Ok([s EXCEPT !.r = Off, !.file = s.r.done, !.key = TRUE], [sent |-> out, end |-> how])
Drop_all(r) == [r EXCEPT !.pend = [h \in r.hs |-> <<>>]]
\* everything is sent, if it can be
Send(s, r) == IF Any_(r.pend) /\ s.refused THEN End([s EXCEPT !.r = r], "err", None)
              ELSE Ok([s EXCEPT !.r = Drop_all(r)], [sent |-> Full(r.pend), end |-> ""])
Begin(s, hs) ==
  LET known == {s.file[h] : h \in DOMAIN s.file}
      first == IF known = {} THEN s.tip ELSE Min(known) + 1
  IN [s EXCEPT !.keygens = @ + (IF s.key THEN 0 ELSE 1),
               !.r = [on |-> TRUE, hs |-> hs, next |-> first,
                      at |-> [h \in hs |-> IF Has(s.file, h) THEN s.file[h] + 1 ELSE first],
                      done |-> s.file, pend |-> [h \in hs |-> <<>>]]]
Start(s, hs) == IF s.down THEN Ok(s, [sent |-> None, end |-> "err"])
                ELSE LET b == Begin(s, hs) IN Send(b, Follow(b))
Wait(s, long) ==
  IF s.down THEN End(s, "err", IF s.refused THEN None ELSE Full(s.r.pend))
  ELSE LET r == Follow(s) IN
       IF long THEN Send(s, r) ELSE Ok([s EXCEPT !.r = r], [sent |-> None, end |-> ""])
\* something happens while it catches up; when it has ended it is started again, catches up and is stopped
Trouble(s, q) ==
  LET lost == q.kind = "crash"
      s1 == IF lost THEN [s EXCEPT !.r = Off] ELSE [s EXCEPT !.r = Off, !.key = TRUE]
      r == IF lost THEN Follow(Begin(s1, s.r.hs)) ELSE Follow(s)
  IN Ok([s1 EXCEPT !.file = r.done, !.key = TRUE, !.keygens = IF lost THEN Begin(s1, s.r.hs).keygens ELSE @],
        [sent |-> Full(r.pend), end |-> IF lost THEN "" ELSE IF q.kind = "signal" THEN "ok" ELSE "err"])
\* when a poll that is late now expires
Expired(s) == IF s.cfg.lates THEN Min2(s.known, s.tip) ELSE 0
Hear(s, r) == [r EXCEPT !.st = [@ EXCEPT !.known = IF s.cfg.lates /\ ~s.down THEN s.tip ELSE @]]
DaemonStep(s, q) ==
  CASE q.t = "Block" -> Ok([s EXCEPT !.chain = Append(@, q.ev), !.late = IF "late" \in Range(q.ev) THEN Max2(@, q.exp) ELSE @], <<>>)
    [] q.t = "Tip" -> Ok([s EXCEPT !.tip = q.n, !.known = Min2(@, q.n)], <<>>)
    [] q.t = "Down" -> Ok([s EXCEPT !.down = q.x], <<>>)
    [] q.t = "Refuse" -> Ok([s EXCEPT !.refused = q.x], <<>>)
    [] q.t = "Start" -> Hear(s, Start(s, q.hs))
    [] q.t = "Wait" -> IF q.long THEN Hear(s, Wait(s, TRUE)) ELSE Wait(s, FALSE)
    [] q.t = "Stop" -> End(s, "ok", IF s.refused THEN None ELSE Full(s.r.pend))
    [] q.t = "Crash" -> Ok([s EXCEPT !.r = Off], <<>>)
    [] q.t = "Trouble" -> Trouble(s, q)
=============================================================================
