------------------------------ MODULE System ------------------------------
(* The assembled system: router, gateways behind aggregate verifiers, voting verifiers, prover, signing contract, service
   registry, rewards and nexus gateway, all real, composed from the specifications of the single contracts. Two external
   chains "A" and "B" with the gateways "gA" and "gB" ("gS" is a spare gateway for A), and a prover for B. *)
EXTENDS Util
R  == INSTANCE Router
Gt == INSTANCE Gateway
Vt == INSTANCE Voting
Rg == INSTANCE Registry
Pv == INSTANCE Prover
Rw == INSTANCE Rewards
Nx == INSTANCE Nexus
\* State: h: block height ; r, reg, pv, rw: as in the modules of these contracts ; vv: chain -> verifier
\*   box: gateway -> its outbox, message id -> message ; gone: what has left for nexus
\*   nx: the messages nexus has ever brought in (a ghost)
\* What a contract learns from another one is not stored twice: the parts of a state that stand for the answers of
\* neighbours (active workers, confirmed sets, outboxes, height) are filled in from the neighbour's own specification.
Svc == "svc"
Gws == {"gA", "gB", "gS"}
Chains == {"A", "B"}
VerifierOf(g) == IF g = "gB" THEN "B" ELSE "A"
Contract(c) == "v" \o c  \* the verifier of a chain, as the rewards contract knows it

SystemInit(cfg) ==
  [h |-> 0, r |-> R!RouterInit([admin |-> "admin", gov |-> "gov", nexus |-> "gN"]),
   box |-> [g \in Gws |-> <<>>], gone |-> {}, nx |-> {},
   vv |-> [c \in Chains |-> Vt!VotingInit([chain |-> c, num |-> cfg.vote[1], den |-> cfg.vote[2], expiry |-> cfg.expiry])],
   reg |-> Rg!RegistryInit([gov |-> "gov"]),
   pv |-> Pv!ProverInit([enc |-> cfg.enc, kt |-> cfg.kt, thr |-> cfg.thr, diff |-> cfg.diff, chain |-> "B"]),
   rw |-> Rw!RewardsInit([gov |-> "gov"], cfg.par)]

Active(s, c) == IF Has(s.reg.svc, Svc) THEN Rg!Active(s.reg, Svc, c) ELSE {}
VV(s, c) == [s.vv[c] EXCEPT !.h = s.h, !.active = Active(s, c)]
KeepV(s, c, v) == [s EXCEPT !.vv[c] = [v EXCEPT !.h = 0, !.active = {}]]
IsVer(s, m) == m.c \in Chains /\ Vt!IsVerified(s.vv[m.c], m)
\* the messages of a list that the verifier behind a gateway reports as verified
GW(s, g, msgs) == [cfg |-> [router |-> "router", front |-> TRUE], out |-> s.box[g], mode |-> "up",
                   ver |-> {m \in {msgs[i] : i \in 1..Len(msgs)} : Vt!IsVerified(s.vv[VerifierOf(g)], m)}]
Confirmed(s, c) == {w \in DOMAIN s.vv[c].sp : Vt!IsSetVerified(s.vv[c], w)}
PV(s) == [s.pv EXCEPT !.h = s.h, !.active = Active(s, "B"), !.out = Range(s.box["gB"]), !.conf = Confirmed(s, "B")]
KeepP(s, p) == [s EXCEPT !.h = p.h, !.pv = [p EXCEPT !.h = 0, !.active = {}, !.out = {}, !.conf = {}]]
RG(s) == [s.reg EXCEPT !.t = 12 * s.h]
RW(s) == [s.rw EXCEPT !.h = s.h]
KeepW(s, w) == [s EXCEPT !.rw = [w EXCEPT !.h = 0]]
Record(s, pool, event, who) == \* participation of everybody in who
  LET RECURSIVE F(_, _)
      F(x, W) == IF W = {} THEN x ELSE LET a == CHOOSE a \in W : TRUE IN
                 F(KeepW(x, Rw!WRecord(RW(x), [by |-> pool, event |-> event, who |-> a]).st), W \ {a})
  IN F(s, who)

\* the router hands messages over to gateways and to the nexus gateway
HandOver(s, sent) ==
  LET real == DOMAIN sent \cap Gws
      e == UNION {Gt!GDeliver(GW(s, g, <<>>), [msgs |-> sent[g]]).err : g \in real}
      out == IF "gN" \in DOMAIN sent THEN Nx!FreshIn([gone |-> s.gone], sent["gN"]) ELSE <<>>
  IN IF e # {} THEN Fail(s, e)
     ELSE Ok([s EXCEPT !.box = [g \in Gws |-> IF g \in real THEN Gt!GDeliver(GW(s, g, <<>>), [msgs |-> sent[g]]).st.out ELSE @[g]],
                       !.gone = @ \cup {Nx!MsgId(out[k]) : k \in 1..Len(out)}],
             [nexus |-> out])
Through(s, by, msgs) ==
  LET x == R!RRoute(s.r, [by |-> by, msgs |-> msgs]) IN
  IF x.err # {} THEN Fail(s, x.err) ELSE HandOver(s, x.out.sent)

\* somebody asks a gateway to have messages verified
YVerify(s, q) ==
  LET c == VerifierOf(q.g)
      x == Gt!GVerify(GW(s, q.g, q.msgs), q)
      v == Vt!VVerify(VV(s, c), [msgs |-> x.out.verifier])
  IN IF x.err # {} THEN Fail(s, x.err)
     ELSE IF x.out.verifier = <<>> THEN Ok(s, [started |-> <<>>])
     ELSE IF v.err # {} THEN Fail(s, v.err)
     ELSE Ok(KeepV(s, c, v.st), [started |-> v.out.started])
\* somebody asks a gateway to pass messages on
YRoute(s, q) ==
  LET x == Gt!GForward(GW(s, q.g, q.msgs), q)
  IN IF x.err # {} THEN Fail(s, x.err)
     ELSE IF x.out.router = <<>> THEN Ok(s, [nexus |-> <<>>])
     ELSE Through(s, q.g, x.out.router)
YNexusIn(s, q) ==
  LET x == Through(s, "gN", q.msgs) IN
  IF x.err # {} THEN Fail(s, x.err) ELSE Ok([x.st EXCEPT !.nx = @ \cup {q.msgs[k] : k \in 1..Len(q.msgs)}], x.out)

YVote(s, q) == LET v == Vt!VVote(VV(s, q.c), q) IN IF v.err # {} THEN Fail(s, v.err) ELSE Ok(KeepV(s, q.c, v.st), v.out)
YEnd(s, q) ==
  LET v == Vt!VEnd(VV(s, q.c), q) IN
  IF v.err # {} THEN Fail(s, v.err)
  ELSE Ok(Record(KeepV(s, q.c, v.st), Contract(q.c), ToString(q.poll), v.out.good), [results |-> v.out.results, good |-> v.out.good])
YVerifySet(s, q) ==
  LET v == Vt!VVerifySet(VV(s, "B"), q) IN
  IF v.err # {} THEN Fail(s, v.err) ELSE Ok(KeepV(s, "B", v.st), [started |-> v.out.started])

YProver(s, q) == LET p == Pv!ProverStep(PV(s), q) IN IF p.err # {} THEN Fail(s, p.err) ELSE Ok(KeepP(s, p.st), p.out)
YSign(s, q) ==
  LET p == Pv!PSign(PV(s), q) IN
  IF p.err # {} THEN Fail(s, p.err)
  ELSE Ok(KeepP(Record(s, "multisig", ToString(q.session), {q.by}), p.st), p.out)

YRouter(s, q) == LET x == R!RouterStep(s.r, q) IN IF x.err # {} THEN Fail(s, x.err) ELSE Ok([s EXCEPT !.r = x.st], <<>>)
YRegistry(s, q) ==
  LET x == Rg!RegistryStep(RG(s), IF q.t = "Service" THEN [q EXCEPT !.t = "Register"] ELSE q) IN
  IF x.err # {} THEN Fail(s, x.err) ELSE Ok([s EXCEPT !.reg = [x.st EXCEPT !.t = 0]], <<>>)
YRewards(s, q) == LET x == Rw!RewardsStep(RW(s), q) IN IF x.err # {} THEN Fail(s, x.err) ELSE Ok(KeepW(s, x.st), x.out)

SystemStep(s, q) ==
  CASE q.t = "Next" -> Ok([s EXCEPT !.h = @ + q.n], <<>>)
    [] q.t \in {"Register", "Upgrade", "Freeze", "Unfreeze"} -> YRouter(s, q)
    [] q.t \in {"Service", "Authorize", "Unauthorize", "Bond", "Unbond", "Claim", "Declare"} -> YRegistry(s, q)
    [] q.t \in {"Add", "Distribute", "Params"} -> YRewards(s, q)
    [] q.t \in {"RegisterKey", "Allow", "Construct", "Update", "Confirm"} -> YProver(s, q)
    [] q.t = "Sign" -> YSign(s, q)
    [] q.t = "Verify" -> YVerify(s, q)
    [] q.t = "Route" -> YRoute(s, q)
    [] q.t = "NexusIn" -> YNexusIn(s, q)
    [] q.t = "Vote" -> YVote(s, q)
    [] q.t = "End" -> YEnd(s, q)
    [] q.t = "VerifySet" -> YVerifySet(s, q)
===========================================================================
