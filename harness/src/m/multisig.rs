//! contracts/multisig against spec/Multisig.tla
use serde_json::{json, Map, Value};

use crate::concrete::{keccak, wasm_events, Conc};
use crate::contracts;
use crate::engine::Module;
use crate::keys::{message, Keys};
use crate::m::gateway::sorted_like;
use crate::m::voting::{data_of, number, rewards_sent};
use crate::world::{attrs, with_others, Outcome, Peer, World, HEIGHT0, TIME0};

pub struct M {
    c: Conc,
    k: Keys,
    sets: Vec<Value>,
    accts: Vec<Value>,
    scale: String,
}

/// Weights and thresholds of the specification are written with this many zeros more on the wire (or, with `up` false,
/// the other way round).
fn scaled(v: &Value, zeros: &str, up: bool) -> Value {
    match v {
        Value::Object(o) => Value::Object(
            o.iter()
                .map(|(k, x)| {
                    let y = match x.as_str() {
                        Some(n) if n != "0" && ["weight", "threshold", "quorum"].contains(&k.as_str()) => {
                            json!(if up { format!("{n}{zeros}") } else { n.strip_suffix(zeros).map_or(format!("{n}?"), |x| x.to_string()) })
                        }
                        _ => scaled(x, zeros, up),
                    };
                    (k.clone(), y)
                })
                .collect(),
        ),
        Value::Array(a) => Value::Array(a.iter().map(|x| scaled(x, zeros, up)).collect()),
        _ => v.clone(),
    }
}

/// A worker set on the wire.
pub fn set_json(k: &mut Keys, s: &Value) -> Value {
    let mut signers = Map::new();
    for (a, m) in s["who"].as_object().cloned().unwrap_or_default() {
        let pk = k.public_json(&m["k"]);
        signers.insert(a.clone(), json!({"address": a, "weight": m["w"].to_string(), "pub_key": pk}));
    }
    json!({"signers": signers, "threshold": s["thr"].to_string(), "created_at": s["at"]})
}

pub fn set_id(wire: &Value) -> String {
    serde_json::from_value::<multisig::worker_set::WorkerSet>(wire.clone()).expect("worker set").id()
}

pub fn abs_set(k: &Keys, v: &Value) -> Value {
    let mut who = Map::new();
    for (a, m) in v["signers"].as_object().cloned().unwrap_or_default() {
        let mut x = json!({"k": k.abs_public(&m["pub_key"]), "w": number(&m["weight"])});
        if m["address"] != json!(a) {
            x["address"] = m["address"].clone();
        }
        who.insert(a, x);
    }
    // (the specification's empty function is written as an empty list)
    json!({"who": if who.is_empty() { json!([]) } else { json!(who) }, "thr": number(&v["threshold"]), "at": v["created_at"]})
}

/// Any one of the recorded forms of a signature.
pub fn sig_hex(v: &Value) -> String {
    ["ecdsa", "ecdsa_recoverable", "ed25519"].iter().find_map(|t| v[t].as_str()).unwrap_or("").to_string()
}

pub fn session_obs(k: &Keys, v: &Value) -> Value {
    let mut who = Map::new();
    for x in v["signers"].as_array().cloned().unwrap_or_default() {
        let sig = if x[1].is_null() { json!([]) } else { json!([k.abs_signature(&sig_hex(&x[1]))]) };
        who.insert(
            x[0]["address"].as_str().unwrap_or("?").to_string(),
            json!({"k": k.abs_public(&x[0]["pub_key"]), "w": number(&x[0]["weight"]), "sig": sig}),
        );
    }
    let at = match &v["state"] {
        Value::String(s) if s == "pending" => json!(-1),
        s => s["completed"]["completed_at"].as_u64().map_or(s.clone(), |h| json!(h as i64 - HEIGHT0 as i64)),
    };
    json!({"at": at, "quorum": number(&v["quorum"]), "who": if who.is_empty() { json!([]) } else { json!(who) }})
}

impl M {
    pub fn new(seed: u64) -> Self {
        M { c: Conc::new(seed), k: Keys::default(), sets: vec![], accts: vec![], scale: String::new() }
    }

    fn wire(&mut self, s: &Value) -> Value {
        scaled(&set_json(&mut self.k, s), &self.scale, true)
    }

    fn set_named(&mut self, id: &str) -> Value {
        for s in self.sets.clone() {
            if set_id(&self.wire(&s)) == id {
                return s;
            }
        }
        json!({ "unknown set": id })
    }

    fn event(&self, w: &World, o: &Outcome, ty: &str) -> Option<std::collections::BTreeMap<String, String>> {
        wasm_events(&o.events, &w.addr("multisig")).iter().find(|(t, _)| t == ty).map(|(_, e)| attrs(e))
    }
}

/// The largest number of the specification stands for the largest number there is.
pub fn wide(v: &Value) -> u64 {
    match v.as_u64() {
        Some(2147483647) | None => u64::MAX,
        Some(n) => n,
    }
}

pub fn advance(w: &mut World, n: u64) {
    let h = w.app.block_info().height + n;
    w.set_block(h, TIME0 + (h - HEIGHT0) * 6);
}

impl Module for M {
    fn build(&mut self, cfg: &Value) -> World {
        let mut w = World::new(&[]);
        w.add("rewards", Peer::silent(), &json!({})).expect("rewards");
        let init = json!({"governance_address": cfg["gov"], "rewards_address": w.addr("rewards"), "grace_period": wide(&cfg["grace"])});
        w.add("multisig", contracts::multisig(), &init).expect("multisig");
        self.scale = cfg["zeros"].as_str().unwrap_or("").to_string();
        self.sets = cfg["sets"].as_array().cloned().unwrap_or_default();
        self.accts = cfg["accts"].as_array().cloned().unwrap_or_default();
        for a in cfg["pre"]["auth"].as_array().cloned().unwrap_or_default() {
            let by = cfg["gov"].as_str().unwrap();
            w.exec(by, "multisig", &json!({"authorize_caller": {"contract_address": a}}), &[]).expect("authorize");
        }
        for s in cfg["pre"]["sets"].as_array().cloned().unwrap_or_default() {
            let x = self.wire(&s);
            w.exec("anna", "multisig", &json!({"register_worker_set": {"worker_set": x}}), &[]).expect("register");
        }
        w
    }

    fn exec(&mut self, w: &mut World, q: &Value) -> Result<Value, String> {
        let by = q["by"].as_str().unwrap_or("user").to_string();
        let err = |e: anyhow::Error| e.to_string();
        match q["t"].as_str().unwrap() {
            "Advance" => {
                advance(w, q["n"].as_u64().unwrap());
                Ok(json!([]))
            }
            t @ ("Authorize" | "Unauthorize") => {
                let (verb, ev) = if t == "Authorize" { ("authorize_caller", "caller_authorized") } else { ("unauthorize_caller", "caller_unauthorized") };
                let o = w.exec(&by, "multisig", &json!({verb: {"contract_address": q["who"]}}), &[]).map_err(err)?;
                let out = match self.event(w, &o, ev) {
                    Some(a) => json!({"ev": [t, a["contract_address"]]}),
                    None => json!({ "ev": null }),
                };
                Ok(with_others(out, w, &o, &[]))
            }
            "RegisterKey" => {
                let pk = self.k.public_json(&q["key"]);
                let o = w.exec(&by, "multisig", &json!({"register_public_key": {"public_key": pk}}), &[]).map_err(err)?;
                let a = self.event(w, &o, "public_key_registered").unwrap_or_default();
                let p = |k: &str| a.get(k).and_then(|x| serde_json::from_str::<Value>(x).ok()).unwrap_or(Value::Null);
                Ok(with_others(json!({"ev": [p("worker"), self.k.abs_public(&p("public_key"))]}), w, &o, &[]))
            }
            "RegisterSet" => {
                let x = self.wire(&q["set"]);
                let o = w.exec(&by, "multisig", &json!({"register_worker_set": {"worker_set": x}}), &[]).map_err(err)?;
                Ok(with_others(json!([]), w, &o, &[]))
            }
            "Start" => {
                let id = set_id(&self.wire(&q["set"]));
                let mut m = json!({"worker_set_id": id, "msg": hex::encode(message(q["msg"].as_str().unwrap())), "chain_name": self.c.chain(&q["chain"])});
                // the optional verifier address must make no difference
                if keccak(&[q.to_string().as_bytes()])[0] & 1 == 0 {
                    m["sig_verifier"] = json!("someverifier");
                }
                let o = w.exec(&by, "multisig", &json!({ "start_signing_session": m }), &[]).map_err(err)?;
                let a = self.event(w, &o, "signing_started").unwrap_or_default();
                let get = |k: &str| a.get(k).cloned().unwrap_or_default();
                let mut keys = Map::new();
                for (who, pk) in serde_json::from_str::<Map<String, Value>>(&get("pub_keys")).unwrap_or_default() {
                    keys.insert(who, self.k.abs_public(&pk));
                }
                let msg = ["m1", "m2", "m3"].iter().find(|m| hex::encode(message(m)) == get("msg")).map(|m| m.to_string());
                let sid = number(&data_of(&o));
                let mut out = json!({"session": sid, "set": self.set_named(&get("worker_set_id")), "msg": msg,
                    "chain": self.c.abs_chain(&get("chain")), "keys": if keys.is_empty() { json!([]) } else { json!(keys) }});
                if json!(get("session_id")) != json!(sid.to_string()) {
                    out["announced"] = json!(get("session_id"));
                }
                Ok(with_others(out, w, &o, &[]))
            }
            "Submit" => {
                let sig = self.k.signature(&q["sig"]);
                let o = w
                    .exec(&by, "multisig", &json!({"submit_signature": {"session_id": q["session"].to_string(), "signature": sig}}), &[])
                    .map_err(err)?;
                let a = self.event(w, &o, "signature_submitted").unwrap_or_default();
                let get = |k: &str| a.get(k).cloned().unwrap_or_default();
                let done: Vec<Value> = wasm_events(&o.events, &w.addr("multisig"))
                    .iter()
                    .filter(|(t, _)| t == "signing_completed")
                    .flat_map(|(_, e)| {
                        let a = attrs(e);
                        vec![number(&json!(a["session_id"])), json!(a["completed_at"].parse::<i64>().unwrap_or(-1) - HEIGHT0 as i64)]
                    })
                    .collect();
                let out = json!({"submitted": [number(&json!(get("session_id"))), get("participant"), self.k.abs_signature(&get("signature"))],
                    "completed": done, "rewards": rewards_sent(w, &o, "session")});
                Ok(with_others(out, w, &o, &[("rewards", "record_participation")]))
            }
            t => panic!("request {t}"),
        }
    }

    fn observe(&mut self, w: &mut World, want: &Value) -> Value {
        let n = want["sessions"].as_array().map_or(0, |a| a.len());
        let mut sessions = vec![];
        for i in 1..=n + 1 {
            match w.query("multisig", &json!({"get_multisig": {"session_id": i.to_string()}})) {
                Ok(v) => sessions.push(session_obs(&self.k, &scaled(&v, &self.scale, false))),
                Err(e) if i <= n => sessions.push(json!(e.to_string())),
                Err(_) => {}
            }
        }
        let mut sets = vec![];
        for s in self.sets.clone() {
            let id = set_id(&self.wire(&s));
            if let Ok(v) = w.query("multisig", &json!({"get_worker_set": {"worker_set_id": id}})) {
                sets.push(abs_set(&self.k, &scaled(&v, &self.scale, false)));
            }
        }
        let mut keys = vec![];
        for a in &self.accts {
            for ty in ["ecdsa", "ed25519"] {
                if let Ok(v) = w.query("multisig", &json!({"get_public_key": {"worker_address": a, "key_type": ty}})) {
                    keys.push(json!({"by": a, "key": self.k.abs_public(&v)}));
                }
            }
        }
        json!({"sessions": sessions, "sets": sorted_like(&want["sets"], sets), "keys": sorted_like(&want["keys"], keys)})
    }
}
