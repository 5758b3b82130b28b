------------------------------- MODULE Nexus -------------------------------
(* contracts/nexus-gateway: the bridge between the router and the chain's own nexus module. *)
EXTENDS Util
\* State: cfg = [nexus, router] ; gone: the ids <<chain, id>> sent out to nexus so far.
\* A message id is a record [f, n, x]: how it is written (f), of which transaction (n), with which index (x).
\*   "std" 0x<hex>:<x>   "bare" <hex>:<x>   "upper" 0x<HEX>:<x>   "zeros" 0x<hex>:00<x>   "short" 0x0<n>:<x>
\* are the readable forms (the last one with a one-byte transaction); anything else is not understood by nexus:
\*   "three" 0x<hex>:<x>:1   "nohex" 0x<hex>zz:<x>   "odd" 0x<hex>0:<x>   "empty" 0x:<x>   "neg" 0x<hex>:-1
\*   "over" 0x<hex>:18446744073709551616   "nocolon" <hex>   "noindex" 0x<hex>:   "words" a phrase
\* x = 2147483647 stands for the largest 64-bit number.
Huge == 2147483647
NiceForms == {"std", "bare", "upper", "zeros", "short"}

NexusInit(cfg) == [cfg |-> cfg, gone |-> {}]

MsgId(m) == <<m.c, m.i>>
\* the transaction reference nexus is given: the transaction's bytes and the index, or the raw id and the largest index
TxOf(i) == IF i.f \in NiceForms THEN [n |-> i.n, short |-> i.f = "short", x |-> i.x]
           ELSE [raw |-> i, x |-> Huge]
\* and the id a message from nexus gets
IdOf(tx) == [f |-> IF tx.short THEN "bareshort" ELSE "bare", n |-> tx.n, x |-> tx.x]

\* first occurrences, in order, of ids that have not been sent out
FreshIn(s, msgs) ==
  LET RECURSIVE F(_, _, _)
      F(k, seen, acc) == IF k > Len(msgs) THEN acc
                         ELSE LET m == msgs[k] IN
                              IF MsgId(m) \in seen THEN F(k + 1, seen, acc)
                              ELSE F(k + 1, seen \cup {MsgId(m)}, Append(acc, m))
  IN F(1, s.gone, <<>>)
ToNexus(m) == [c |-> m.c, d |-> m.d, v |-> m.v, tx |-> TxOf(m.i)]
FromNexus(m) == [c |-> m.c, d |-> m.d, v |-> m.v, i |-> IdOf(m.tx)]

NOut(s, q) ==
  IF q.by # s.cfg.router THEN Fail(s, {"notRouter"})
  ELSE LET new == FreshIn(s, q.msgs) IN
       Ok([s EXCEPT !.gone = @ \cup {MsgId(new[k]) : k \in 1..Len(new)}],
          [nexus |-> MapSeq(new, ToNexus), router |-> <<>>])
NIn(s, q) ==
  LET e == G(q.by # s.cfg.nexus, "notNexus") \cup G(\E k \in 1..Len(q.msgs) : q.msgs[k].tx.n = 0, "noTx")
  IN IF e # {} THEN Fail(s, e) ELSE Ok(s, [nexus |-> <<>>, router |-> MapSeq(q.msgs, FromNexus)])

NexusStep(s, q) ==
  CASE q.t = "Out" -> NOut(s, q)
    [] q.t = "In" -> NIn(s, q)
===========================================================================
