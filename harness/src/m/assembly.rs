//! contracts/multisig-prover's finished proofs against spec/Assembly.tla: the real prover and gateway, and a signing
//! contract that says whatever it is told to about its sessions.
use cosmwasm_std::{Env, Storage};
use serde_json::{json, Map, Value};

use crate::concrete::wasm_events;
use crate::contracts;
use crate::engine::Module;
use crate::keys::public;
use crate::m::prover;
use crate::m::voting::registry;
use crate::world::{attrs, programmed, with_others, Peer, World};

pub struct M {
    p: prover::M,
    scale: String,
}

fn answer(q: &Value, s: &dyn Storage, _: &Env) -> anyhow::Result<Value> {
    if let Some(n) = q["get_multisig"]["session_id"].as_str() {
        let v = programmed(s, "sessions")[n].clone();
        anyhow::ensure!(!v.is_null(), "no session {n}");
        return Ok(v);
    }
    if !q["get_public_key"].is_null() {
        return Ok(programmed(s, "key"));
    }
    anyhow::bail!("no answer to {q}")
}

fn pending() -> Value {
    json!({"state": "pending", "quorum": "1", "signers": []})
}

fn respond(q: &Value, s: &mut dyn Storage, _: &Env) -> anyhow::Result<Option<Value>> {
    if q["start_signing_session"].is_null() {
        return Ok(None);
    }
    let next = programmed(s, "next");
    let mut payloads = programmed(s, "payloads").as_object().cloned().unwrap_or_default();
    payloads.insert(next.as_str().expect("session").into(), q["start_signing_session"]["msg"].clone());
    s.set(b"payloads", Value::Object(payloads).to_string().as_bytes());
    let mut all = programmed(s, "sessions").as_object().cloned().unwrap_or_default();
    all.insert(next.as_str().expect("session").into(), pending());
    s.set(b"sessions", Value::Object(all).to_string().as_bytes());
    Ok(Some(next))
}

impl M {
    pub fn new(seed: u64) -> Self {
        M { p: prover::M::new(seed), scale: String::new() }
    }

    /// A number of the specification in the units of this behaviour.
    fn number(&self, v: &Value) -> String {
        format!("{}{}", v.as_u64().expect("number"), self.scale)
    }

    fn sid(v: &Value) -> String {
        match v.as_str().unwrap() {
            "big" => (u64::MAX - 3).to_string(),
            "bigger" => (u64::MAX).to_string(),
            "mid" => (1u64 << 32).to_string(),
            "mid1" => ((1u64 << 32) + 1).to_string(),
            x => x.to_string(),
        }
    }

    fn say(&mut self, w: &mut World, sid: &str, v: Value) {
        let mut all = w.peek("multisig", "sessions").as_object().cloned().unwrap_or_default();
        all.insert(sid.to_string(), v);
        w.program("multisig", json!({ "sessions": all }));
    }

    fn ask(&mut self, w: &World, sid: &str) -> Result<Value, String> {
        w.query("prover", &json!({"get_proof": {"multisig_session_id": sid}})).map_err(|e| e.to_string())
    }

    /// What the session is about, as the prover reports it.
    fn batch(&mut self, w: &World, sid: &str) -> Value {
        match self.ask(w, sid) {
            Ok(v) => self.p.understand(sid, &v, &json!({}))["ids"].clone(),
            Err(e) => json!(e),
        }
    }
}

impl Module for M {
    fn build(&mut self, init: &Value) -> World {
        let cfg = &init["cfg"];
        self.scale = cfg["scale"].as_str().unwrap().to_string();
        self.p.configure(cfg);
        let mut w = World::new(&[]);
        w.add("registry", registry(), &json!({})).expect("registry");
        w.program("registry", json!({"chain": self.p.chain, "active": ["wk1"]}));
        w.add("multisig", Box::new(Peer { answer, respond }), &json!({})).expect("multisig");
        let (ty, pk) = public(if self.p.kt == "ecdsa" { "e1" } else { "d1" });
        w.program("multisig", json!({"key": { ty: hex::encode(pk) }}));
        w.add("verifier", Peer::silent(), &json!({})).expect("verifier");
        w.add("gateway", contracts::gateway(), &json!({"verifier_address": w.addr("verifier"), "router_address": "router"})).expect("gateway");
        self.p.deploy(&mut w, &json!({"thr": [2, 3], "diff": 0, "enc": cfg["enc"], "kt": cfg["kt"], "chain": cfg["chain"]}));
        w.exec("anyone", "prover", &json!("update_worker_set"), &[]).expect("first set");
        for m in init["out"].as_array().cloned().unwrap_or_default() {
            self.p.deliver(&mut w, &m).expect("delivery");
        }
        w
    }

    fn exec(&mut self, w: &mut World, q: &Value) -> Result<Value, String> {
        let sid = Self::sid(&q["sid"]);
        match q["t"].as_str().unwrap() {
            "Open" => {
                let sessions = w.peek("multisig", "sessions");
                if !sessions[&sid].is_null() {
                    return Err("the signing contract never does that".into());
                }
                w.program("multisig", json!({ "next": sid }));
                let ids: Vec<Value> = q["msgs"].as_array().unwrap().clone().iter().map(|m| self.p.ccid(&json!([m["c"], m["i"]]))).collect();
                let o = w.exec("anyone", "prover", &json!({"construct_proof": {"message_ids": ids}}), &[]).map_err(|e| e.to_string())?;
                let got: Vec<String> = wasm_events(&o.events, &w.addr("prover"))
                    .iter()
                    .filter(|(t, _)| t == "proof_under_construction")
                    .map(|(_, e)| attrs(e)["multisig_session_id"].trim_matches('"').to_string())
                    .collect();
                let out = if got == [sid.clone()] { json!({"session": q["sid"]}) } else { json!({ "session": got }) };
                Ok(with_others(out, w, &o, &[("multisig", "start_signing_session")]))
            }
            "Ask" => {
                let payload = match w.peek("multisig", "payloads")[&sid].as_str() {
                    Some(p) => p.to_string(),
                    None => return self.ask(w, &sid),
                };
                let digest = hex::decode(&payload).unwrap_or_default();
                let mut signers = vec![];
                for (n, m) in q["members"].as_array().unwrap().iter().enumerate() {
                    let name = m["k"].as_str().unwrap();
                    let (ty, pk) = public(name);
                    let sig = match m["signed"].as_str().unwrap() {
                        "no" => Value::Null,
                        x => {
                            let s = self.p.k.signature_over(&json!({"k": {"n": name, "ty": ty}, "x": x}), &digest);
                            json!({ ty.clone(): s })
                        }
                    };
                    let at = format!("acc{n}");
                    signers.push(json!([{"address": at, "weight": self.number(&m["w"]), "pub_key": { ty: hex::encode(pk) }}, sig]));
                }
                let state = if q["done"] == json!(true) { json!({"completed": {"completed_at": 12345}}) } else { json!("pending") };
                self.say(w, &sid, json!({"state": state, "quorum": self.number(&q["thr"]), "signers": signers}));
                let v = self.ask(w, &sid);
                self.say(w, &sid, pending());
                let v = v?;
                let mut out = self.p.understand(&sid, &v, &json!({ "msg": payload }));
                // the operators with their weights, back in the units of the specification
                let plain = |t: &str| match t.strip_suffix(self.scale.as_str()).and_then(|x| x.parse::<u64>().ok()) {
                    Some(n) => json!(n),
                    None => json!(t),
                };
                if let Some((ops, thr)) = self.p.listed(&v) {
                    let p = out["proof"][0].as_object_mut().unwrap();
                    p.remove("ops");
                    p.insert("members".into(), ops.iter().map(|(k, x)| json!([k, plain(x)])).collect());
                    p.insert("thr".into(), plain(&thr));
                }
                Ok(out)
            }
            t => panic!("request {t}"),
        }
    }

    fn observe(&mut self, w: &mut World, want: &Value) -> Value {
        let mut batches = Map::new();
        let mut names: Vec<String> = want["batches"].as_object().map_or(vec![], |m| m.keys().cloned().collect());
        names.sort();
        for n in names {
            let b = self.batch(w, &Self::sid(&json!(n)));
            batches.insert(n, b);
        }
        json!({ "batches": batches })
    }
}
