----------------------------- MODULE Multisig -----------------------------
(* contracts/multisig: keys, worker sets and signing sessions. *)
EXTENDS Util
\* State: cfg = [gov, grace] ; h: block height ; auth: authorized callers ; keys: <<account, key type>> -> key
\*   sets: the registered worker sets (by content) ; sessions: sequence (the session id is the position) of
\*         [set, msg, sigs: account -> signature, at: completion height or -1]
\* A worker set is [who: account -> [k: key, w: weight], thr, at]. A key is [n: name, ty: "ecdsa" / "ed25519"].
\* A signature is [k: key, m: message, x: form]; the forms "ok" and "alt" (the other valid encoding that ECDSA allows)
\* are well-formed, all others are not. Messages named "m..." are 32 bytes long.

MultisigInit(cfg) == [cfg |-> cfg, h |-> 0, auth |-> {}, keys |-> <<>>, sets |-> {}, sessions |-> <<>>]

GoodMsg(m) == m \in {"m1", "m2", "m3"}
GoodForm(sig) == sig.x = "ok" \/ (sig.x = "alt" /\ sig.k.ty = "ecdsa")
ValidSig(sig, key, msg) == GoodForm(sig) /\ sig.k = key /\ sig.m = msg
Weight(set, who) == SumF([a \in who |-> set.who[a].w])

MAuth(s, q) ==
  IF q.by # s.cfg.gov THEN Fail(s, {"notGov"})
  ELSE Ok([s EXCEPT !.auth = IF q.t = "Authorize" THEN @ \cup {q.who} ELSE @ \ {q.who}], [ev |-> <<q.t, q.who>>])

MRegisterKey(s, q) ==
  IF q.key.ty \notin {"ecdsa", "ed25519"} THEN Fail(s, {"badKey"})
  ELSE Ok([s EXCEPT !.keys = Put(@, <<q.by, q.key.ty>>, q.key)], [ev |-> <<q.by, q.key>>])

MRegisterSet(s, q) == Ok([s EXCEPT !.sets = @ \cup {q.set}], <<>>)

MStart(s, q) ==
  LET e == G(q.by \notin s.auth, "notAuthorized") \cup G(q.set \notin s.sets, "noSet") \cup G(~GoodMsg(q.msg), "badMsg")
  IN IF e # {} THEN Fail(s, e)
     ELSE Ok([s EXCEPT !.sessions = Append(@, [set |-> q.set, msg |-> q.msg, sigs |-> <<>>, at |-> -1])],
             [session |-> Len(s.sessions) + 1, set |-> q.set, msg |-> q.msg, chain |-> q.chain,
              keys |-> [a \in DOMAIN q.set.who |-> q.set.who[a].k]])

MSubmit(s, q) ==
  IF q.session \notin DOMAIN s.sessions THEN Fail(s, {"noSession"})
  ELSE LET x == s.sessions[q.session]
           member == q.by \in DOMAIN x.set.who
           e == G(~member, "notMember")
                \cup G(member /\ ~ValidSig(q.sig, x.set.who[q.by].k, x.msg), "badSignature")
                \cup G(x.at >= 0 /\ x.at < s.h - s.cfg.grace, "closed")
                \cup G(q.by \in DOMAIN x.sigs, "duplicate")
       IN IF e # {} THEN Fail(s, e)
          ELSE LET sigs == Put(x.sigs, q.by, q.sig)
                   now == x.at < 0 /\ Weight(x.set, DOMAIN sigs) >= x.set.thr
               IN Ok([s EXCEPT !.sessions[q.session].sigs = sigs, !.sessions[q.session].at = IF now THEN s.h ELSE @],
                     [submitted |-> <<q.session, q.by, q.sig>>, completed |-> IF now THEN <<q.session, s.h>> ELSE <<>>,
                      rewards |-> <<[session |-> q.session, worker |-> q.by]>>])

MultisigStep(s, q) ==
  CASE q.t = "Advance" -> Ok([s EXCEPT !.h = @ + q.n], <<>>)
    [] q.t \in {"Authorize", "Unauthorize"} -> MAuth(s, q)
    [] q.t = "RegisterKey" -> MRegisterKey(s, q)
    [] q.t = "RegisterSet" -> MRegisterSet(s, q)
    [] q.t = "Start" -> MStart(s, q)
    [] q.t = "Submit" -> MSubmit(s, q)

\* what the queries report
SessionObs(x) == [at |-> x.at, quorum |-> x.set.thr,
                  who |-> [a \in DOMAIN x.set.who |-> [k |-> x.set.who[a].k, w |-> x.set.who[a].w,
                             sig |-> IF a \in DOMAIN x.sigs THEN <<x.sigs[a]>> ELSE <<>>]]]
===========================================================================
