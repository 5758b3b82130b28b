----------------------------- MODULE Registry -----------------------------
(* contracts/service-registry: services, the workers governance admits to them, their stake and the chains they support. *)
EXTENDS Util
\* State: cfg = [gov] ; t: time in half seconds ; svc: service name -> [min, max, bond, denom, days, about]
\*   wk: <<service, worker>> -> [b: "bonded" / "unbonding" / "unbonded", n: stake, at: when unbonding began or -1, auth]
\*   sup: set of <<service, chain, worker>> ; held: denomination -> tokens held
\*   spent: <<worker, denomination>> -> tokens given to the contract and not received back
Day == 2 * 86400

RegistryInit(cfg) == [cfg |-> cfg, t |-> 0, svc |-> <<>>, wk |-> <<>>, sup |-> {}, held |-> <<>>, spent |-> <<>>]

None == [b |-> "unbonded", n |-> 0, at |-> -1, auth |-> FALSE]
Add(f, x, n) == Put(f, x, Get(f, x, 0) + n)

SRegister(s, q) ==
  LET e == G(q.by # s.cfg.gov, "notGov") \cup G(Has(s.svc, q.svc), "serviceExists")
  IN IF e # {} THEN Fail(s, e) ELSE Ok([s EXCEPT !.svc = Put(@, q.svc, q.is)], <<>>)

SAuth(s, q) ==
  LET e == G(q.by # s.cfg.gov, "notGov") \cup G(~Has(s.svc, q.svc), "noService")
      new == [k \in {<<q.svc, q.ws[i]>> : i \in 1..Len(q.ws)} |-> [Get(s.wk, k, None) EXCEPT !.auth = (q.t = "Authorize")]]
  IN IF e # {} THEN Fail(s, e) ELSE Ok([s EXCEPT !.wk = new @@ @], <<>>)

SBond(s, q) ==
  LET k == <<q.svc, q.by>>
      v == s.svc[q.svc]
      w == Get(s.wk, k, None)
      n == IF q.coins = <<>> THEN 0 ELSE q.coins[1].n
      e == IF ~Has(s.svc, q.svc) THEN {"noService"}
           ELSE G(Len(q.coins) > 1 \/ (Len(q.coins) = 1 /\ q.coins[1].d # v.denom), "wrongCoins")
                \cup G(q.coins = <<>> /\ w.n = 0, "zeroBond")
  IN IF e # {} THEN Fail(s, e)
     ELSE Ok([s EXCEPT !.wk = Put(@, k, [w EXCEPT !.b = "bonded", !.n = @ + n, !.at = -1]),
                       !.held = Add(@, v.denom, n), !.spent = Add(@, <<q.by, v.denom>>, n)], <<>>)

SUnbond(s, q) ==
  LET k == <<q.svc, q.by>>
      e == IF ~Has(s.svc, q.svc) THEN {"noService"} ELSE IF ~Has(s.wk, k) THEN {"noWorker"} ELSE G(s.wk[k].b # "bonded", "notBonded")
  IN IF e # {} THEN Fail(s, e) ELSE Ok([s EXCEPT !.wk[k].b = "unbonding", !.wk[k].at = s.t], <<>>)

SClaim(s, q) ==
  LET k == <<q.svc, q.by>>
      v == s.svc[q.svc]
      e == IF ~Has(s.svc, q.svc) THEN {"noService"} ELSE IF ~Has(s.wk, k) THEN {"noWorker"}
           ELSE IF s.wk[k].b # "unbonding" THEN {"notUnbonding"} ELSE G(s.t - s.wk[k].at < v.days * Day, "tooEarly")
  IN IF e # {} THEN Fail(s, e)
     ELSE Ok([s EXCEPT !.wk[k] = [@ EXCEPT !.b = "unbonded", !.n = 0, !.at = -1],
                       !.held = Add(@, v.denom, 0 - s.wk[k].n), !.spent = Add(@, <<q.by, v.denom>>, 0 - s.wk[k].n)], <<>>)

SDeclare(s, q) ==
  LET e == IF ~Has(s.svc, q.svc) THEN {"noService"} ELSE G(~Has(s.wk, <<q.svc, q.by>>), "noWorker")
  IN IF e # {} THEN Fail(s, e)
     ELSE Ok([s EXCEPT !.sup = @ \cup {<<q.svc, q.chains[i], q.by>> : i \in 1..Len(q.chains)}], <<>>)

RegistryStep(s, q) ==
  CASE q.t = "Advance" -> Ok([s EXCEPT !.t = @ + q.n], <<>>)
    [] q.t = "Register" -> SRegister(s, q)
    [] q.t \in {"Authorize", "Unauthorize"} -> SAuth(s, q)
    [] q.t = "Bond" -> SBond(s, q)
    [] q.t = "Unbond" -> SUnbond(s, q)
    [] q.t = "Claim" -> SClaim(s, q)
    [] q.t = "Declare" -> SDeclare(s, q)

Active(s, v, c) == {x[3] : x \in {y \in s.sup : y[1] = v /\ y[2] = c /\ s.wk[<<v, y[3]>>].auth
                                    /\ s.wk[<<v, y[3]>>].b = "bonded" /\ s.wk[<<v, y[3]>>].n >= s.svc[v].bond}}
===========================================================================
