//! All contracts wired together, against spec/System.tla
use serde_json::{json, Map, Value};

use crate::concrete::wasm_events;
use crate::contracts;
use crate::engine::Module;
use crate::m::gateway::sorted_like;
use crate::m::multisig::advance;
use crate::m::voting::{abs_vote, data_of, number, started, vote, CONFIRMATIONS, GATEWAY, SERVICE};
use crate::m::{prover, router, strings};
use crate::world::{attrs, Outcome, World};

pub struct M {
    p: prover::M,
    msgs: Vec<Value>,
    nx: Vec<Value>,
    workers: Vec<String>,
    ids: Vec<Value>,
}

const REWARD: &str = "uaxl";
const BOND: &str = "ubond";

fn coins(v: &Value, denom: &str) -> Vec<cosmwasm_std::Coin> {
    v.as_array().unwrap().iter().map(|c| cosmwasm_std::coin(u128::from(c["n"].as_u64().unwrap()), denom)).collect()
}

impl M {
    pub fn new(seed: u64) -> Self {
        M { p: prover::M::new(seed), msgs: vec![], nx: vec![], workers: vec![], ids: vec![] }
    }

    /// The reference to a message's transaction that nexus deals in.
    fn tx(&mut self, m: &Value) -> (Vec<u8>, u64) {
        let v = self.p.message(m);
        let (h, i) = v["cc_id"]["id"].as_str().unwrap().split_once(':').unwrap();
        (hex::decode(h.trim_start_matches("0x")).expect("hex"), i.parse().expect("index"))
    }

    fn from_nexus(&mut self, m: &Value) -> Value {
        let v = self.p.message(m);
        let (tx, i) = self.tx(m);
        json!({
            "source_chain": self.p.c.chain(&m["c"]), "source_address": v["source_address"],
            "destination_chain": self.p.c.chain(&m["d"]), "destination_address": v["destination_address"],
            "payload_hash": hex::decode(v["payload_hash"].as_str().unwrap()).unwrap(), "source_tx_id": tx, "source_tx_index": i,
        })
    }

    /// What went out to nexus.
    fn nexus(&mut self, o: &Outcome) -> Value {
        let all: Vec<Value> = self.msgs.iter().chain(&self.nx).cloned().collect();
        let known: Vec<(Value, Value)> = all
            .into_iter()
            .map(|m| {
                let v = self.p.message(&m);
                let (tx, i) = self.tx(&m);
                let wire = json!({
                    "source_chain": v["cc_id"]["chain"], "source_address": v["source_address"],
                    "destination_chain": v["destination_chain"], "destination_address": v["destination_address"],
                    "payload_hash": hex::decode(v["payload_hash"].as_str().unwrap()).unwrap(), "source_tx_id": tx, "source_tx_index": i,
                });
                (m, wire)
            })
            .collect();
        o.sent
            .iter()
            .map(|s| {
                let m = known.iter().find(|k| s.to == "CUSTOM" && k.1.as_object().unwrap().iter().all(|(f, x)| &s.msg[f] == x));
                m.map_or_else(|| json!({ "unknown": s.msg }), |k| k.0.clone())
            })
            .collect()
    }

    fn wire_ops(&self, ops: &Value) -> Value {
        let l: Vec<Value> = self.p.operators(&ops["keys"]).iter().map(|(a, n)| json!([hex::encode(a), n])).collect();
        json!({"weights_by_addresses": l, "threshold": ops["thr"].to_string()})
    }

    fn polls(&mut self, w: &World, o: &Outcome, c: &str, sets: &[(Value, Value)], ids: &[Value]) -> Value {
        let chain = self.p.c.chain_canon(&json!(c));
        let universe = self.msgs.clone();
        started(&mut self.p.c, w, o, &format!("v{c}"), &chain, &universe, sets, ids)
    }

    fn active(&mut self, w: &World, c: &str) -> Value {
        let name = self.p.c.chain(&json!(c));
        match w.query("registry", &json!({"get_active_workers": {"service_name": SERVICE, "chain_name": name}})) {
            Ok(v) => {
                let mut l: Vec<Value> = v.as_array().cloned().unwrap_or_default().iter().map(|x| x["address"].clone()).collect();
                l.sort_by_key(|x| x.to_string());
                json!(l)
            }
            Err(_) => json!([]),
        }
    }
}

impl Module for M {
    fn build(&mut self, init: &Value) -> World {
        let cfg = &init["cfg"];
        self.msgs = init["msgs"].as_array().cloned().unwrap_or_default();
        self.nx = init["nx"].as_array().cloned().unwrap_or_default();
        self.workers = strings(&init["workers"]);
        let setup = init["setup"].as_array().cloned().unwrap_or_default();
        let mut pc = cfg.clone();
        pc["chain"] = json!("B");
        self.p.configure(&pc);
        let mut rich: Vec<(&str, &str, u128)> = self.workers.iter().map(|a| (a.as_str(), BOND, 1_000_000)).collect();
        rich.push(("rich", REWARD, 1_000_000_000));
        let mut w = World::new(&rich);
        let par = &cfg["par"];
        w.add("rewards", contracts::rewards(), &json!({"governance_address": "gov", "rewards_denom": REWARD, "params": {
            "epoch_duration": par["dur"].to_string(), "rewards_per_epoch": par["rew"].to_string(),
            "participation_threshold": [par["num"].to_string(), par["den"].to_string()]}})).expect("rewards");
        w.add("registry", contracts::service_registry(), &json!({"governance_account": "gov"})).expect("registry");
        // the router is given the address that the nexus gateway is going to have
        let next = w.addr("registry").trim_start_matches("contract").parse::<u64>().expect("address") + 2;
        let addresses = json!({"admin_address": "admin", "governance_address": "gov", "nexus_gateway": format!("contract{next}")});
        w.add("router", contracts::router(), &addresses).expect("router");
        w.add("gN", contracts::nexus_gateway(), &json!({"nexus": "nexusmodule", "router": w.addr("router")})).expect("nexus gateway");
        assert_eq!(w.addr("gN"), format!("contract{next}"), "address of the nexus gateway");
        w.add("multisig", contracts::multisig(), &json!({"governance_address": "gov", "rewards_address": w.addr("rewards"), "grace_period": 0})).expect("multisig");
        for c in ["A", "B"] {
            let v = json!({
                "service_registry_address": w.addr("registry"), "service_name": SERVICE,
                "source_gateway_address": GATEWAY, "voting_threshold": [cfg["vote"][0].to_string(), cfg["vote"][1].to_string()],
                "block_expiry": cfg["expiry"], "confirmation_height": CONFIRMATIONS,
                "source_chain": self.p.c.chain(&json!(c)), "rewards_address": w.addr("rewards"),
            });
            w.add(&format!("v{c}"), contracts::voting_verifier(), &v).expect("voting verifier");
            let front = json!({"verifier_address": w.addr(&format!("v{c}"))});
            w.add(&format!("f{c}"), contracts::aggregate_verifier(), &front).expect("aggregate verifier");
        }
        for (g, c) in [("gA", "A"), ("gB", "B"), ("gS", "A")] {
            let v = json!({"verifier_address": w.addr(&format!("f{c}")), "router_address": w.addr("router")});
            w.add(g, contracts::gateway(), &v).expect("gateway");
        }
        for (also, name) in [("gateway", "gB"), ("verifier", "vB")] {
            let a = w.names[name].clone();
            w.names.insert(also.into(), a);
        }
        self.p.deploy(&mut w, &pc);
        w.names.remove("gateway");
        w.names.remove("verifier");
        w.exec("gov", "multisig", &json!({"authorize_caller": {"contract_address": w.addr("prover")}}), &[]).expect("authorize");
        for m in self.msgs.iter().chain(&self.nx).cloned().collect::<Vec<_>>() {
            self.p.message(&m);
            let x = json!([m["c"], m["i"]]);
            self.p.c.know_id(&m, &x);
            if !self.ids.contains(&x) {
                self.ids.push(x);
            }
        }
        for q in setup {
            self.exec(&mut w, &q).unwrap_or_else(|e| panic!("setting up: {q}: {e}"));
        }
        w
    }

    fn exec(&mut self, w: &mut World, q: &Value) -> Result<Value, String> {
        let by = q["by"].as_str().unwrap_or("anyone").to_string();
        let err = |e: anyhow::Error| e.to_string();
        let nothing = Ok(json!([]));
        match q["t"].as_str().unwrap() {
            "Next" => {
                advance(w, q["n"].as_u64().unwrap());
                nothing
            }
            "Register" | "Upgrade" | "Freeze" | "Unfreeze" => {
                let m = router::request(&mut self.p.c, w, q);
                w.exec(&by, "router", &m, &[]).map_err(err)?;
                nothing
            }
            t @ ("Service" | "Authorize" | "Unauthorize" | "Bond" | "Unbond" | "Claim" | "Declare") => {
                let (m, funds) = match t {
                    "Service" => {
                        let v = &q["is"];
                        let max = if v["max"] == json!(-1) { Value::Null } else { v["max"].clone() };
                        (json!({"register_service": {"service_name": SERVICE, "service_contract": "none", "min_num_workers": v["min"],
                            "max_num_workers": max, "min_worker_bond": v["bond"].to_string(), "bond_denom": BOND,
                            "unbonding_period_days": v["days"], "description": v["about"]}}), vec![])
                    }
                    "Authorize" => (json!({"authorize_workers": {"workers": q["ws"], "service_name": SERVICE}}), vec![]),
                    "Unauthorize" => (json!({"unauthorize_workers": {"workers": q["ws"], "service_name": SERVICE}}), vec![]),
                    "Bond" => (json!({"bond_worker": {"service_name": SERVICE}}), coins(&q["coins"], BOND)),
                    "Unbond" => (json!({"unbond_worker": {"service_name": SERVICE}}), vec![]),
                    "Claim" => (json!({"claim_stake": {"service_name": SERVICE}}), vec![]),
                    _ => {
                        let l: Vec<String> = q["chains"].as_array().unwrap().iter().map(|c| self.p.c.chain(c)).collect();
                        (json!({"declare_chain_support": {"service_name": SERVICE, "chains": l}}), vec![])
                    }
                };
                w.exec(&by, "registry", &m, &funds).map_err(err)?;
                nothing
            }
            "Add" => {
                let m = json!({"add_rewards": {"contract_address": w.addr(q["pool"].as_str().unwrap())}});
                w.exec("rich", "rewards", &m, &coins(&q["coins"], REWARD)).map_err(err)?;
                nothing
            }
            "Distribute" => {
                let n = if q["limit"] == json!(-1) { Value::Null } else { q["limit"].clone() };
                let before: Vec<u128> = self.workers.iter().map(|a| w.balance(a, REWARD)).collect();
                let m = json!({"distribute_rewards": {"contract_address": w.addr(q["pool"].as_str().unwrap()), "epoch_count": n}});
                w.exec(&by, "rewards", &m, &[]).map_err(err)?;
                let mut pay = Map::new();
                for (a, b) in self.workers.iter().zip(before) {
                    let n = w.balance(a, REWARD) as i128 - b as i128;
                    if n != 0 {
                        pay.insert(a.clone(), json!(n as i64));
                    }
                }
                Ok(json!({ "pay": pay }))
            }
            "RegisterKey" => self.p.register_key(w, &by, q["key"].as_str().unwrap()).map(|_| json!([])),
            "Allow" => {
                let verb = if q["on"] == json!(true) { "authorize_caller" } else { "unauthorize_caller" };
                w.exec("gov", "multisig", &json!({verb: {"contract_address": w.addr("prover")}}), &[]).map_err(err)?;
                nothing
            }
            t @ ("Construct" | "Update" | "Confirm") => {
                let msg = match t {
                    "Construct" => {
                        let ids: Vec<Value> = q["ids"].as_array().unwrap().clone().iter().map(|x| self.p.ccid(x)).collect();
                        json!({"construct_proof": {"message_ids": ids}})
                    }
                    "Update" => json!("update_worker_set"),
                    _ => json!("confirm_worker_set"),
                };
                let active = self.active(w, "B");
                for thr in 1..=active.as_array().map_or(0, |a| a.len()) {
                    self.p.know_set(w, &active, &thr.to_string());
                }
                let cur = w.query("prover", &json!("get_worker_set")).ok();
                let o = w.exec(&by, "prover", &msg, &[]).map_err(err)?;
                Ok(self.p.opened(w, &o, &cur))
            }
            "Sign" => self.p.sign(w, q).map(|_| json!([])),
            "Verify" => {
                let g = q["g"].as_str().unwrap();
                let c = if g == "gB" { "B" } else { "A" };
                let m = json!({"verify_messages": self.p.c.msgs(&q["msgs"])});
                let o = w.exec(&by, g, &m, &[]).map_err(err)?;
                let other = if c == "A" { "B" } else { "A" };
                let mut out = json!({"started": self.polls(w, &o, c, &[], &[])});
                let elsewhere = self.polls(w, &o, other, &[], &[]);
                if elsewhere != json!([]) {
                    out["elsewhere"] = elsewhere;
                }
                Ok(out)
            }
            "Route" => {
                let m = json!({"route_messages": self.p.c.msgs(&q["msgs"])});
                let o = w.exec(&by, q["g"].as_str().unwrap(), &m, &[]).map_err(err)?;
                Ok(json!({"nexus": self.nexus(&o)}))
            }
            "NexusIn" => {
                let l: Vec<Value> = q["msgs"].as_array().unwrap().clone().iter().map(|m| self.from_nexus(m)).collect();
                let o = w.exec("nexusmodule", "gN", &json!({ "route_messages_from_nexus": l }), &[]).map_err(err)?;
                Ok(json!({"nexus": self.nexus(&o)}))
            }
            "Vote" => {
                let v = format!("v{}", q["c"].as_str().unwrap());
                let votes: Vec<Value> = q["votes"].as_array().unwrap().iter().map(vote).collect();
                let o = w.exec(&by, &v, &json!({"vote": {"poll_id": q["poll"].to_string(), "votes": votes}}), &[]).map_err(err)?;
                let voted = wasm_events(&o.events, &w.addr(&v)).iter().find(|(t, _)| t == "voted").map(|(_, e)| {
                    let a = attrs(e);
                    json!([number(&json!(a["poll_id"])), a["voter"]])
                });
                Ok(json!({ "voted": voted }))
            }
            "End" => {
                let v = format!("v{}", q["c"].as_str().unwrap());
                let o = w.exec(&by, &v, &json!({"end_poll": {"poll_id": q["poll"].to_string()}}), &[]).map_err(err)?;
                let r = data_of(&o)["poll_result"].clone();
                let results: Vec<Value> = r["results"].as_array().cloned().unwrap_or_default().iter().map(abs_vote).collect();
                let mut good: Vec<String> = serde_json::from_value(r["consensus_participants"].clone()).unwrap_or_default();
                good.sort();
                Ok(json!({"results": results, "good": good}))
            }
            "VerifySet" => {
                let wire = self.wire_ops(&q["set"]);
                let mid = self.p.c.msg_id(&q["i"]);
                let m = json!({"verify_worker_set": {"message_id": mid, "new_operators": wire}});
                let o = w.exec(&by, "vB", &m, &[]).map_err(err)?;
                Ok(json!({"started": self.polls(w, &o, "B", &[(q["set"].clone(), wire)], &[q["i"].clone()])}))
            }
            t => panic!("request {t}"),
        }
    }

    fn observe(&mut self, w: &mut World, want: &Value) -> Value {
        let mut boxes = Map::new();
        for g in ["gA", "gB", "gS"] {
            let mut l = vec![];
            for x in self.ids.clone() {
                let id = self.p.ccid(&x);
                if let Ok(v) = w.query(g, &json!({"get_messages": {"message_ids": [id]}})) {
                    match self.p.c.abs_msgs(&v) {
                        Value::Array(a) => l.extend(a),
                        v => l.push(v),
                    }
                }
            }
            boxes.insert(g.into(), sorted_like(&want["box"][g], l));
        }
        let mut ver = vec![];
        let mut active = Map::new();
        for c in ["A", "B"] {
            let u: Vec<Value> = self.msgs.iter().filter(|m| m["c"] == json!(c)).cloned().collect();
            let ms = self.p.c.msgs(&json!(u));
            match w.query(&format!("f{c}"), &json!({"is_verified": {"messages": ms}})) {
                Err(e) => ver.push(json!({ "error": e.to_string() })),
                Ok(v) => {
                    let a = v.as_array().cloned().unwrap_or_default();
                    if a.len() != u.len() {
                        ver.push(json!({ "wrong length": v }));
                    }
                    for (m, x) in u.iter().zip(a) {
                        if self.p.c.abs_ccid(&x[0]) != json!([m["c"], m["i"]]) {
                            ver.push(json!({ "wrong id": x }));
                        } else if x[1] == json!(true) {
                            ver.push(m.clone());
                        }
                    }
                }
            }
            active.insert(c.into(), self.active(w, c));
        }
        let cur = match w.query("prover", &json!("get_worker_set")) {
            Ok(v) => json!([self.p.set_of(&v)]),
            Err(_) => json!([]),
        };
        let n = want["proofs"].as_array().map_or(0, |a| a.len());
        let mut proofs = vec![];
        for i in 1..=n + 1 {
            match self.p.proof(w, i) {
                Ok(p) => proofs.push(p),
                Err(e) if i <= n => proofs.push(json!(e)),
                Err(_) => {}
            }
        }
        let mut paid = vec![];
        for a in &self.workers {
            let n = w.balance(a, REWARD);
            if n != 0 {
                paid.push(json!({"who": a, "n": n as u64}));
            }
        }
        json!({"chains": router::chains(&mut self.p.c, w, &want["chains"]), "box": boxes, "ver": sorted_like(&want["ver"], ver),
            "active": active, "cur": cur, "proofs": proofs, "held": w.balance("rewards", REWARD) as u64, "paid": sorted_like(&want["paid"], paid)})
    }
}
