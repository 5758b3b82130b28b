//! Chain names, message ids and the other texts of messages, at every contract that takes them, against spec/Names.tla
use std::str::FromStr;

use serde_json::{json, Value};

use crate::concrete::{keccak, wasm_events};
use crate::contracts;
use crate::engine::Module;
use crate::keys::{message, Keys};
use crate::m::gateway::sorted_like;
use crate::m::multisig::{set_id, set_json};
use crate::m::strings;
use crate::m::voting::{registry, SERVICE};
use crate::world::{attrs, Peer, World};

const TOKENS: [(&str, char); 5] = [("AE", 'Ä'), ("ae", 'ä'), ("KEL", '\u{212A}'), ("IDOT", 'İ'), ("DOT", '\u{307}')];
const HASH: &str = "8c3bc54a4c0e4e7d2cc8f5e1a5d6b7c8990a1b2c3d4e5f60718293a4b5c6d7e8";

pub struct M {
    k: Keys,
    verifier: u64,
    prover: u64,
    set: String,
    names: Vec<Value>,
    ids: Vec<Value>,
    workers: Vec<String>,
    seed: u64,
}

fn text(v: &Value) -> String {
    strings(v)
        .iter()
        .map(|c| TOKENS.iter().find(|t| t.0 == c).map_or_else(|| c.clone(), |t| t.1.to_string()))
        .collect()
}

fn chars(s: &str) -> Value {
    s.chars().map(|c| TOKENS.iter().find(|t| t.1 == c).map_or_else(|| c.to_string(), |t| t.0.to_string())).collect()
}

fn abs_text(v: &Value) -> Value {
    v.as_str().map_or(json!({ "no text": v }), chars)
}

/// An address derived from the abstract one, which tells the sides apart.
fn address(v: &Value, side: &str) -> String {
    let t = text(v);
    if t.is_empty() { t } else { format!("{t}-{side}") }
}

fn abs_address(v: &Value, side: &str) -> Value {
    let t = v.as_str().unwrap_or("");
    t.strip_suffix(&format!("-{side}")).map_or(json!({ "unknown address": v }), chars)
}

fn hash(v: &Value) -> String {
    match v.as_str().unwrap() {
        "ok" => HASH.into(),
        "upper" => HASH.to_uppercase(),
        "short" => HASH[2..].into(),
        "long" => format!("{HASH}00"),
        "empty" => String::new(),
        _ => format!("zz{}", &HASH[2..]),
    }
}

fn wire(m: &Value) -> Value {
    json!({"cc_id": {"chain": text(&m["src"]), "id": text(&m["i"])}, "source_address": address(&m["sa"], "from"),
        "destination_chain": text(&m["dst"]), "destination_address": address(&m["da"], "to"), "payload_hash": hash(&m["hash"])})
}

fn abs_msg(v: &Value) -> Value {
    let hash = if v["payload_hash"] == json!(HASH) { json!("ok") } else { json!({ "unknown hash": v["payload_hash"] }) };
    json!({"src": abs_text(&v["cc_id"]["chain"]), "i": abs_text(&v["cc_id"]["id"]), "dst": abs_text(&v["destination_chain"]),
        "sa": abs_address(&v["source_address"], "from"), "da": abs_address(&v["destination_address"], "to"), "hash": hash})
}

fn all_routed(v: &Value) -> Value {
    match v["route_messages"].as_array().map(|a| a.as_slice()) {
        Some([m]) => abs_msg(m),
        _ => json!({ "unexpected": v }),
    }
}

type Name = connection_router::state::ChainName;
type Id = connection_router::state::CrossChainId;
type ApiName = connection_router_api::primitives::ChainName;

impl M {
    pub fn new(seed: u64) -> Self {
        M { k: Keys::default(), verifier: 0, prover: 0, set: String::new(), names: vec![], ids: vec![], workers: vec![], seed }
    }

    fn tx(&self, i: &Value) -> Vec<u8> {
        let t = text(i);
        if t.is_empty() { vec![] } else { keccak(&[&self.seed.to_be_bytes(), t.as_bytes()]).to_vec() }
    }
}

impl Module for M {
    fn build(&mut self, cfg: &Value) -> World {
        self.names = cfg["names"].as_array().cloned().unwrap_or_default();
        self.ids = cfg["ids"].as_array().cloned().unwrap_or_default();
        self.workers = strings(&cfg["workers"]);
        let balances: Vec<(&str, &str, u128)> = self.workers.iter().map(|w| (w.as_str(), "uaxl", 1000)).collect();
        let mut w = World::new(&balances);
        for g in ["g1", "g2", "g3", "nexus", "rewards", "wallet"] {
            w.add(g, Peer::silent(), &json!({})).expect("peer");
        }
        w.add("vreg", registry(), &json!({})).expect("registry");
        let nexus = w.addr(cfg["nexus"].as_str().unwrap());
        w.add("router", contracts::router(), &json!({"admin_address": "admin", "governance_address": "gov", "nexus_gateway": nexus})).expect("router");
        w.add("gate", contracts::gateway(), &json!({"verifier_address": "verifier", "router_address": "therouter"})).expect("gateway");
        w.add("bridge", contracts::nexus_gateway(), &json!({"nexus": "thenexus", "router": w.addr("wallet")})).expect("nexus gateway");
        w.add("registry", contracts::service_registry(), &json!({"governance_account": "gov"})).expect("registry");
        let service = json!({"register_service": {"service_name": "svc", "service_contract": "contract", "min_num_workers": 0,
            "max_num_workers": null, "min_worker_bond": "1", "bond_denom": "uaxl", "unbonding_period_days": 1, "description": "d"}});
        w.exec("gov", "registry", &service, &[]).expect("service");
        w.exec("gov", "registry", &json!({"authorize_workers": {"workers": self.workers, "service_name": "svc"}}), &[]).expect("authorize");
        for a in &self.workers {
            w.exec(a, "registry", &json!({"bond_worker": {"service_name": "svc"}}), &[cosmwasm_std::coin(10, "uaxl")]).expect("bond");
        }
        w.add("multisig", contracts::multisig(), &json!({"governance_address": "gov", "rewards_address": w.addr("rewards"), "grace_period": 0})).expect("multisig");
        w.exec("gov", "multisig", &json!({"authorize_caller": {"contract_address": "theprover"}}), &[]).expect("authorize");
        let s = set_json(&mut self.k, &json!({"who": {"anna": {"k": {"n": "e1", "ty": "ecdsa"}, "w": 1}}, "thr": 1, "at": 1}));
        w.exec("theprover", "multisig", &json!({"register_worker_set": {"worker_set": s}}), &[]).expect("set");
        self.set = set_id(&s);
        self.verifier = w.store(contracts::voting_verifier());
        self.prover = w.store(contracts::prover());
        w
    }

    fn exec(&mut self, w: &mut World, q: &Value) -> Result<Value, String> {
        let err = |e: anyhow::Error| e.to_string();
        let name = text(&q["name"]);
        match q["t"].as_str().unwrap() {
            t @ ("Register" | "Upgrade" | "Freeze") => {
                let gw = q["gw"].as_str().map(|g| w.addr(g));
                let (by, msg, ev) = match t {
                    "Register" => ("gov", json!({"register_chain": {"chain": name, "gateway_address": gw}}), "chain_registered"),
                    "Upgrade" => ("gov", json!({"upgrade_gateway": {"chain": name, "contract_address": gw}}), "gateway_upgraded"),
                    _ if q["on"] == json!(true) => ("admin", json!({"freeze_chain": {"chain": name, "direction": "Bidirectional"}}), "chain_frozen"),
                    _ => ("admin", json!({"unfreeze_chain": {"chain": name, "direction": "Bidirectional"}}), "chain_unfrozen"),
                };
                let o = w.exec(by, "router", &msg, &[]).map_err(err)?;
                let evs = wasm_events(&o.events, &w.addr("router"));
                let a = evs.iter().find(|x| x.0 == ev).map(|x| attrs(&x.1)).unwrap_or_default();
                let n = a.get("name").or(a.get("chain")).cloned().unwrap_or_default();
                Ok(json!({ "name": chars(&n) }))
            }
            "Route" => {
                let o = w.exec(q["by"].as_str().unwrap(), "router", &json!({"route_messages": [wire(&q["m"])]}), &[]).map_err(err)?;
                Ok(match o.sent.as_slice() {
                    [s] => json!({"to": w.name_of(&s.to), "m": all_routed(&s.msg)}),
                    s => json!({ "messages": s.len() }),
                })
            }
            "Declare" => {
                let chains: Vec<String> = q["names"].as_array().unwrap().iter().map(text).collect();
                let m = json!({"declare_chain_support": {"service_name": "svc", "chains": chains}});
                w.exec(q["by"].as_str().unwrap(), "registry", &m, &[]).map(|_| json!([])).map_err(err)
            }
            "Put" => w.exec("therouter", "gate", &json!({"route_messages": [wire(&q["m"])]}), &[]).map(|_| json!([])).map_err(err),
            "Verifier" => {
                let init = json!({
                    "service_registry_address": w.addr("vreg"), "service_name": SERVICE, "source_gateway_address": "gateway",
                    "voting_threshold": ["2", "3"], "block_expiry": 5, "confirmation_height": 1, "source_chain": name,
                    "rewards_address": w.addr("rewards"),
                });
                let a = w.deploy(self.verifier, &init).map_err(err)?;
                w.raw_set(b"harness-verifier", a.as_bytes());
                w.program("vreg", json!({"chain": Name::from_str(&name).map_or(name, |n| n.to_string()), "active": ["wk1", "wk2"]}));
                Ok(json!([]))
            }
            "Ask" => {
                let a = w.raw_get(b"harness-verifier").ok_or("none deployed")?;
                let mut m = wire(&q["m"]);
                // the verifier has its own rules for the form of ids
                if m["cc_id"]["id"] != json!("") {
                    m["cc_id"]["id"] = json!(format!("0x{}:0", hex::encode(self.tx(&q["m"]["i"]))));
                }
                let a = String::from_utf8(a).unwrap();
                w.exec("user", &a, &json!({"verify_messages": {"messages": [m]}}), &[]).map(|_| json!([])).map_err(err)
            }
            "Prover" => {
                let init = json!({
                    "admin_address": "admin", "gateway_address": "gateway", "multisig_address": "multisig",
                    "service_registry_address": "registry", "voting_verifier_address": "verifier",
                    "destination_chain_id": "1", "signing_threshold": ["2", "3"], "service_name": "service",
                    "chain_name": name, "worker_set_diff_threshold": 0, "encoder": "abi", "key_type": "ecdsa",
                });
                w.deploy(self.prover, &init).map(|_| json!([])).map_err(err)
            }
            "Sign" => {
                let m = json!({"start_signing_session": {"worker_set_id": self.set, "msg": hex::encode(message("m1")), "chain_name": name}});
                let o = w.exec("theprover", "multisig", &m, &[]).map_err(err)?;
                let evs = wasm_events(&o.events, &w.addr("multisig"));
                let n = evs.iter().find(|x| x.0 == "signing_started").and_then(|x| attrs(&x.1).get("chain").cloned());
                Ok(json!({ "name": chars(&n.unwrap_or_default()) }))
            }
            "FromNexus" => {
                let m = &q["m"];
                let h = match hash(&m["hash"]) {
                    h if h.starts_with("zz") => json!(h),
                    h => json!(hex::decode(h).unwrap()),
                };
                let msg = json!({"source_chain": text(&m["src"]), "source_address": address(&m["sa"], "from"),
                    "destination_chain": text(&m["dst"]), "destination_address": address(&m["da"], "to"), "payload_hash": h,
                    "source_tx_id": self.tx(&m["i"]), "source_tx_index": 7});
                let o = w.exec("thenexus", "bridge", &json!({ "route_messages_from_nexus": [msg] }), &[]).map_err(err)?;
                Ok(match o.sent.as_slice() {
                    [s] => {
                        let mut a = all_routed(&s.msg);
                        let got = s.msg["route_messages"][0]["cc_id"]["id"].as_str().unwrap_or("").to_string();
                        if got == format!("{}:7", hex::encode(self.tx(&m["i"]))) {
                            a["i"] = m["i"].clone();
                        }
                        json!({ "m": a })
                    }
                    s => json!({ "messages": s.len() }),
                })
            }
            "Text" => {
                let id: Id = serde_json::from_value(json!({"chain": name, "id": text(&q["i"])})).map_err(|e| e.to_string())?;
                let t = id.to_string();
                let back: Vec<Value> = t.parse::<Id>().ok().iter().map(|b| json!({"chain": chars(b.chain.as_ref()), "i": chars(&b.id)})).collect();
                Ok(json!({"text": chars(&t), "back": back}))
            }
            "Read" => {
                let id = text(&q["text"]).parse::<Id>().map_err(|e| e.to_string())?;
                Ok(json!([{"chain": chars(id.chain.as_ref()), "i": chars(&id.id)}]))
            }
            "Eq" => {
                let a = Name::from_str(&text(&q["a"])).map_err(|e| e.to_string())?;
                let b = text(&q["b"]);
                let text_eq = a == b;
                let name_eq = Name::from_str(&b).map(|b| a == b);
                Ok(json!({"eq": if name_eq.map_or(true, |x| x == text_eq) { json!(text_eq) } else { json!("ways disagree") }}))
            }
            "Api" => {
                let j = serde_json::from_value::<ApiName>(json!(name));
                let p = ApiName::from_str(&name);
                let t = ApiName::try_from(name.clone());
                if j.is_ok() != p.is_ok() || t.is_ok() != p.is_ok() {
                    return Ok(json!("ways disagree"));
                }
                p.map(|n| json!({"name": chars(&n.to_string())})).map_err(|e| e.to_string())
            }
            "ApiEq" => {
                let a = ApiName::from_str(&text(&q["a"])).map_err(|e| e.to_string())?;
                let b = ApiName::from_str(&text(&q["b"])).map_err(|e| e.to_string())?;
                // as keys, too
                let keys = std::collections::HashMap::from([(HashKey(a.clone()), ())]).contains_key(&HashKey(b.clone()));
                let eq = a == b;
                Ok(json!({"eq": if keys == eq { json!(eq) } else { json!("ways disagree") }}))
            }
            t => panic!("request {t}"),
        }
    }

    fn observe(&mut self, w: &mut World, want: &Value) -> Value {
        let on = |k: &str| want[k].as_array().map_or(false, |a| !a.is_empty());
        let (mut chains, mut active, mut boxed) = (vec![], vec![], vec![]);
        for t in &self.names {
            let n = text(t);
            if on("chains") {
                let is = match w.query("router", &json!({ "get_chain_info": n })) {
                    Err(_) => json!({"none": true}),
                    Ok(v) => {
                        let f = v["frozen_status"].as_u64().unwrap_or(99);
                        json!({"name": abs_text(&v["name"]), "gw": w.name_of(v["gateway"]["address"].as_str().unwrap_or("")), "fin": f & 1 != 0, "fout": f & 2 != 0})
                    }
                };
                chains.push(json!({"t": t, "is": is}));
            }
            if on("active") {
                let is = match w.query("registry", &json!({"get_active_workers": {"service_name": "svc", "chain_name": n}})) {
                    Err(_) => json!(["bad"]),
                    Ok(v) => {
                        let mut l: Vec<String> = v.as_array().map_or(vec![], |a| a.iter().filter_map(|x| x["address"].as_str().map(String::from)).collect());
                        l.sort();
                        json!(l)
                    }
                };
                active.push(json!({"t": t, "is": is}));
            }
            if on("box") {
                for i in &self.ids {
                    let id = json!({"chain": n, "id": text(i)});
                    let is = match w.query("gate", &json!({"get_messages": {"message_ids": [id]}})) {
                        Err(_) => json!({"none": true}),
                        Ok(v) => v.as_array().filter(|a| a.len() == 1).map_or(json!({ "unexpected": v }), |a| abs_msg(&a[0])),
                    };
                    boxed.push(json!({"t": t, "i": i, "is": is}));
                }
            }
        }
        json!({"chains": sorted_like(&want["chains"], chains.iter().cloned().map(crate::engine::norm).collect()),
            "active": sorted_like(&want["active"], active), "box": sorted_like(&want["box"], boxed)})
    }
}

/// The API's names have no Eq of their own.
#[derive(Clone, Hash, PartialEq)]
struct HashKey(ApiName);
impl Eq for HashKey {}
