//! contracts/voting-verifier against spec/Voting.tla
use cosmwasm_std::{Env, Storage};
use serde_json::{json, Value};

use crate::concrete::{wasm_events, Conc};
use crate::contracts;
use crate::engine::Module;
use crate::m::gateway::sorted_like;
use crate::world::{attrs, programmed, with_others, Outcome, Peer, World, HEIGHT0, TIME0};

pub const SERVICE: &str = "validators";
pub const GATEWAY: &str = "0x4F4495243837681061C4743b74B3eEdf548D56A5";
pub const CONFIRMATIONS: u64 = 17;

pub struct M {
    c: Conc,
    universe: Vec<Value>,
    sets: Vec<Value>,
}

/// The registry: the active workers of the verifier's chain, other workers for any other chain or service.
pub fn registry_answer(q: &Value, s: &dyn Storage, _: &Env) -> anyhow::Result<Value> {
    let a = &q["get_active_workers"];
    let right = a["service_name"] == json!(SERVICE) && a["chain_name"] == programmed(s, "chain");
    let workers = if right { programmed(s, "active") } else { json!(["mallory", "trudy"]) };
    Ok(workers
        .as_array()
        .cloned()
        .unwrap_or_default()
        .iter()
        .map(|w| {
            json!({"address": w, "bonding_state": {"Bonded": {"amount": "100"}},
                   "authorization_state": "Authorized", "service_name": SERVICE})
        })
        .collect())
}

pub fn registry() -> contracts::Boxed {
    Box::new(Peer { answer: registry_answer, respond: crate::world::no_data })
}

/// The operator sets behind names: s1..s3 differ only in weights and threshold, s4 lacks a member, s5 differs in one.
pub fn operators(name: &str) -> Value {
    let a = ["0a11", "1b22", "2c33", "3d44"];
    let (members, threshold): (Vec<(usize, u64)>, u64) = match name {
        "s1" => (vec![(0, 1), (1, 2), (2, 3)], 4),
        "s2" => (vec![(0, 2), (1, 1), (2, 3)], 4),
        "s3" => (vec![(0, 1), (1, 2), (2, 3)], 5),
        "s4" => (vec![(0, 1), (1, 2)], 4),
        "s5" => (vec![(0, 1), (1, 2), (3, 3)], 4),
        x => panic!("worker set {x}"),
    };
    let m: Vec<Value> = members.iter().map(|(i, w)| json!([a[*i], w.to_string()])).collect();
    json!({"weights_by_addresses": m, "threshold": threshold.to_string()})
}

pub fn vote(v: &Value) -> Value {
    match v.as_str().unwrap() {
        "S" => json!("succeeded_on_chain"),
        "F" => json!("failed_on_chain"),
        "N" => json!("not_found"),
        x => panic!("vote {x}"),
    }
}

pub fn abs_vote(v: &Value) -> Value {
    match v.as_str() {
        Some("succeeded_on_chain") => json!("S"),
        Some("failed_on_chain") => json!("F"),
        Some("not_found") => json!("N"),
        None if v.is_null() => json!("none"),
        _ => v.clone(),
    }
}

pub fn number(v: &Value) -> Value {
    match v {
        Value::String(s) => s.trim_matches('"').parse::<u64>().map_or_else(|_| v.clone(), |n| json!(n)),
        _ => v.clone(),
    }
}

pub fn split_id(id: &str) -> Option<(String, u64)> {
    let (t, i) = id.split_once(':')?;
    Some((t.to_string(), i.parse().ok()?))
}

/// What an event about the start of a poll says; `msgs`, `sets`: the possible items.
pub fn started(c: &mut Conc, w: &World, o: &Outcome, contract: &str, chain: &str, universe: &[Value], sets: &[(Value, Value)], ids: &[Value]) -> Value {
    let mut out = vec![];
    for (ty, e) in wasm_events(&o.events, &w.addr(contract)) {
        let a = attrs(&e);
        let get = |k: &str| a.get(k).cloned().unwrap_or_default();
        let parsed = |k: &str| serde_json::from_str::<Value>(&get(k)).unwrap_or(Value::Null);
        let (kind, items) = match ty.as_str() {
            "messages_poll_started" => {
                let items: Vec<Value> = parsed("messages")
                    .as_array()
                    .cloned()
                    .unwrap_or_default()
                    .iter()
                    .map(|m| {
                        universe
                            .iter()
                            .find(|u| {
                                let f = c.canon(u);
                                split_id(f["cc_id"]["id"].as_str().unwrap()).map_or(false, |(t, i)| {
                                    *m == json!({"tx_id": t, "event_index": i, "destination_address": f["destination_address"],
                                        "destination_chain": f["destination_chain"], "source_address": f["source_address"],
                                        "payload_hash": f["payload_hash"]})
                                })
                            })
                            .cloned()
                            .unwrap_or_else(|| json!({ "unknown": m }))
                    })
                    .collect();
                ("msgs", items)
            }
            "worker_set_poll_started" => {
                let m = parsed("worker_set");
                let set = sets.iter().find(|s| s.1 == m["operators"]).map(|s| &s.0);
                let id = ids.iter().find(|i| {
                    split_id(&c.msg_id(i)).map_or(false, |(t, n)| json!(t) == m["tx_id"] && json!(n) == m["event_index"])
                });
                ("set", vec![json!({"i": id, "set": set})])
            }
            _ => continue,
        };
        let mut part: Vec<String> = serde_json::from_value(parsed("participants")).unwrap_or_default();
        part.sort();
        let meta_ok = get("source_gateway_address") == GATEWAY
            && get("confirmation_height") == CONFIRMATIONS.to_string()
            && get("source_chain") == chain;
        let mut p = json!({
            "poll": number(&parsed("poll_id")), "kind": kind, "items": items, "part": part,
            "exp": get("expires_at").parse::<u64>().unwrap_or(0).wrapping_sub(HEIGHT0) as i64,
        });
        if !meta_ok {
            p["metadata"] = json!(a);
        }
        out.push(p);
    }
    json!(out)
}

/// The participation reports a contract sent to the rewards peer.
pub fn rewards_sent(w: &World, o: &Outcome, id_key: &str) -> Vec<Value> {
    let mut l: Vec<Value> = o
        .sent
        .iter()
        .filter(|s| w.name_of(&s.to) == "rewards")
        .map(|s| {
            let r = &s.msg["record_participation"];
            let mut v = json!({"worker": r["worker_address"]});
            v[id_key] = number(&r["event_id"]);
            v
        })
        .collect();
    l.sort_by_key(|v| v.to_string());
    l
}

impl M {
    pub fn new(seed: u64) -> Self {
        M { c: Conc::subtle(seed), universe: vec![], sets: vec![] }
    }

    fn wire_sets(&self) -> Vec<(Value, Value)> {
        self.sets.iter().map(|s| (s.clone(), operators(s.as_str().unwrap()))).collect()
    }
}

pub fn data_of(o: &Outcome) -> Value {
    o.data.as_ref().map_or(Value::Null, |d| serde_json::from_slice(d).unwrap_or(json!("not json")))
}

pub fn poll_ended(w: &World, o: &Outcome, contract: &str) -> Value {
    let ev = wasm_events(&o.events, &w.addr(contract));
    match ev.iter().find(|(t, _)| t == "poll_ended") {
        None => Value::Null,
        Some((_, e)) => {
            let a = attrs(e);
            let p = |k: &str| a.get(k).and_then(|x| serde_json::from_str::<Value>(x).ok()).unwrap_or(Value::Null);
            json!({"poll": number(&p("poll_id")), "results": p("results").as_array().cloned().unwrap_or_default().iter().map(abs_vote).collect::<Vec<_>>()})
        }
    }
}

impl Module for M {
    fn build(&mut self, cfg: &Value) -> World {
        let mut w = World::new(&[]);
        w.add("rewards", Peer::silent(), &json!({})).expect("rewards");
        w.add("registry", registry(), &json!({})).expect("registry");
        let chain = self.c.chain_canon(&cfg["chain"]);
        w.program("registry", json!({ "chain": chain }));
        let init = json!({
            "service_registry_address": w.addr("registry"), "service_name": SERVICE,
            "source_gateway_address": GATEWAY, "voting_threshold": [cfg["num"].to_string(), cfg["den"].to_string()],
            "block_expiry": cfg["expiry"], "confirmation_height": CONFIRMATIONS,
            "source_chain": self.c.chain(&cfg["chain"]), "rewards_address": w.addr("rewards"),
        });
        w.add("vv", contracts::voting_verifier(), &init).expect("voting verifier");
        self.universe = cfg["universe"].as_array().cloned().unwrap_or_default();
        self.sets = cfg["sets"].as_array().cloned().unwrap_or_default();
        for m in self.universe.clone() {
            let x = json!([m["c"], m["i"]]);
            self.c.know_id(&m, &x);
        }
        w
    }

    fn exec(&mut self, w: &mut World, q: &Value) -> Result<Value, String> {
        let by = q["by"].as_str().unwrap_or("user").to_string();
        let err = |e: anyhow::Error| e.to_string();
        match q["t"].as_str().unwrap() {
            "SetActive" => {
                w.program("registry", json!({"active": q["workers"]}));
                Ok(json!([]))
            }
            "Advance" => {
                let b = w.app.block_info();
                let n = q["n"].as_u64().unwrap();
                w.set_block(b.height + n, TIME0 + (b.height + n - HEIGHT0) * 6);
                Ok(json!([]))
            }
            "Verify" => {
                let msgs = self.c.msgs(&q["msgs"]);
                let o = w.exec(&by, "vv", &json!({"verify_messages": {"messages": msgs}}), &[]).map_err(err)?;
                let d = data_of(&o);
                let st = d["verification_statuses"].as_array().cloned().unwrap_or_default();
                let before: Vec<Value> = st
                    .iter()
                    .enumerate()
                    .map(|(k, x)| {
                        let m = &q["msgs"][k];
                        if self.c.abs_ccid(&x[0]) == json!([m["c"], m["i"]]) { x[1].clone() } else { x.clone() }
                    })
                    .collect();
                let chain = self.c.chain_canon(&json!("A"));
                let sets = self.wire_sets();
                let s = started(&mut self.c, w, &o, "vv", &chain, &self.universe, &sets, &[]);
                Ok(with_others(json!({"before": before, "started": s}), w, &o, &[]))
            }
            "VerifySet" => {
                let ops = operators(q["set"].as_str().unwrap());
                let mid = self.c.msg_id(&q["i"]);
                let o = w
                    .exec(&by, "vv", &json!({"verify_worker_set": {"message_id": mid, "new_operators": ops}}), &[])
                    .map_err(err)?;
                let chain = self.c.chain_canon(&json!("A"));
                let sets = self.wire_sets();
                let s = started(&mut self.c, w, &o, "vv", &chain, &self.universe, &sets, &[q["i"].clone()]);
                Ok(with_others(json!({ "started": s }), w, &o, &[]))
            }
            "Vote" => {
                let votes: Vec<Value> = q["votes"].as_array().unwrap().iter().map(vote).collect();
                let o = w
                    .exec(&by, "vv", &json!({"vote": {"poll_id": q["poll"].to_string(), "votes": votes}}), &[])
                    .map_err(err)?;
                let voted = wasm_events(&o.events, &w.addr("vv"))
                    .iter()
                    .find(|(t, _)| t == "voted")
                    .map(|(_, e)| {
                        let a = attrs(e);
                        json!([number(&json!(a["poll_id"])), a["voter"]])
                    });
                let mut out = json!({ "voted": voted });
                if !o.sent.is_empty() {
                    out["sent"] = json!(o.sent.len());
                }
                Ok(out)
            }
            "End" => {
                let o = w.exec(&by, "vv", &json!({"end_poll": {"poll_id": q["poll"].to_string()}}), &[]).map_err(err)?;
                let r = data_of(&o)["poll_result"].clone();
                let results: Vec<Value> = r["results"].as_array().cloned().unwrap_or_default().iter().map(abs_vote).collect();
                let mut good: Vec<String> = serde_json::from_value(r["consensus_participants"].clone()).unwrap_or_default();
                good.sort();
                let mut out = json!({"ended": number(&r["poll_id"]), "results": results, "good": good, "rewards": rewards_sent(w, &o, "poll")});
                let ev = poll_ended(w, &o, "vv");
                if ev != json!({"poll": out["ended"], "results": results}) {
                    out["event"] = ev;
                }
                Ok(with_others(out, w, &o, &[("rewards", "record_participation")]))
            }
            t => panic!("request {t}"),
        }
    }

    fn observe(&mut self, w: &mut World, want: &Value) -> Value {
        let u = self.universe.clone();
        let ms: Vec<Value> = u.iter().map(|m| self.c.msg(m)).collect();
        let ver = match w.query("vv", &json!({"is_verified": {"messages": ms}})) {
            Err(e) => vec![json!({ "error": e.to_string() })],
            Ok(v) => {
                let a = v.as_array().cloned().unwrap_or_default();
                if a.len() != u.len() {
                    vec![json!({ "wrong length": v })]
                } else {
                    u.iter()
                        .zip(a)
                        .filter_map(|(m, x)| {
                            if self.c.abs_ccid(&x[0]) != json!([m["c"], m["i"]]) {
                                Some(json!({ "wrong id": x }))
                            } else if x[1] == json!(true) {
                                Some(m.clone())
                            } else {
                                None
                            }
                        })
                        .collect()
                }
            }
        };
        let mut sets = vec![];
        for s in &self.sets {
            match w.query("vv", &json!({"is_worker_set_verified": {"new_operators": operators(s.as_str().unwrap())}})) {
                Ok(Value::Bool(true)) => sets.push(s.clone()),
                Ok(Value::Bool(false)) => {}
                x => sets.push(json!({ "error": format!("{x:?}") })),
            }
        }
        json!({"ver": sorted_like(&want["ver"], ver), "sets": sorted_like(&want["sets"], sets)})
    }
}
