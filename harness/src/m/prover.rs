//! contracts/multisig-prover, with the real gateway and signing contract, against spec/Prover.tla
use std::collections::HashMap;

use cosmwasm_std::{Env, Storage, Uint256};
use ethabi::{ParamType, Token};
use serde_json::{json, Map, Value};

use crate::concrete::{keccak, wasm_events, Conc};
use crate::contracts;
use crate::engine::Module;
use crate::keys::{public, Keys};
use crate::m::multisig::{abs_set, advance, set_id};
use crate::m::voting::{number, registry, SERVICE};
use crate::world::{attrs, programmed, with_others, Outcome, Peer, World, HEIGHT0};

pub struct M {
    pub c: Conc,
    pub k: Keys,
    pub seed: u64,
    pub abi: bool,
    pub kt: String,
    pub chain: String,
    pub chain_id: String,
    /// command contents back to abstract messages
    pub cmds: HashMap<String, Value>,
    /// worker set ids back to worker sets
    pub sets: HashMap<String, Value>,
    pub ids: HashMap<String, Value>,
    /// proofs already understood, by the text of the answers
    pub understood: HashMap<String, Value>,
}

/// The verifier: confirms the operator lists it is told to.
fn confirmed(q: &Value, s: &dyn Storage, _: &Env) -> anyhow::Result<Value> {
    let conf = programmed(s, "conf");
    Ok(json!(conf.as_array().map_or(false, |a| a.contains(&q["is_worker_set_verified"]["new_operators"]))))
}

fn evm_address(pk: &[u8]) -> Vec<u8> {
    let p = k256::PublicKey::from_sec1_bytes(pk).expect("key");
    let p = k256::elliptic_curve::sec1::ToEncodedPoint::to_encoded_point(&p, false);
    keccak(&[&p.as_bytes()[1..]])[12..].to_vec()
}

/// A batch as the destination understands it: chain id, then per command id, kind and parameters.
type Commands = (String, Vec<(Vec<u8>, String, Vec<u8>)>);

fn abi_decode(types: &[ParamType], b: &[u8]) -> Option<Vec<Token>> {
    ethabi::decode(types, b).ok()
}

fn list(t: Token) -> Vec<Token> {
    t.into_array().unwrap_or_default()
}

fn uint(t: &Token) -> String {
    t.clone().into_uint().map_or("?".into(), |u| u.to_string())
}

fn decode_batch(abi: bool, b: &[u8]) -> Option<Commands> {
    if abi {
        let dynb = |t| ParamType::Array(Box::new(t));
        let mut t = abi_decode(&[ParamType::Uint(256), dynb(ParamType::FixedBytes(32)), dynb(ParamType::String), dynb(ParamType::Bytes)], b)?.into_iter();
        let chain = uint(&t.next()?);
        let ids: Vec<Vec<u8>> = list(t.next()?).into_iter().filter_map(|x| x.into_fixed_bytes()).collect();
        let kinds: Vec<String> = list(t.next()?).into_iter().filter_map(|x| x.into_string()).collect();
        let params: Vec<Vec<u8>> = list(t.next()?).into_iter().filter_map(|x| x.into_bytes()).collect();
        if ids.len() != kinds.len() || ids.len() != params.len() {
            return None;
        }
        Some((chain, ids.into_iter().zip(kinds).zip(params).map(|((a, b), c)| (a, b, c)).collect()))
    } else {
        let (chain, ids, kinds, params): (u64, Vec<[u8; 32]>, Vec<String>, Vec<Vec<u8>>) = bcs::from_bytes(b).ok()?;
        if ids.len() != kinds.len() || ids.len() != params.len() {
            return None;
        }
        Some((chain.to_string(), ids.into_iter().zip(kinds).zip(params).map(|((a, b), c)| (a.to_vec(), b, c)).collect()))
    }
}

/// source chain, source address, destination address, payload hash
fn decode_approval(abi: bool, b: &[u8]) -> Option<(String, String, Vec<u8>, Vec<u8>)> {
    if abi {
        let mut t = abi_decode(&[ParamType::String, ParamType::String, ParamType::Address, ParamType::FixedBytes(32)], b)?.into_iter();
        Some((t.next()?.into_string()?, t.next()?.into_string()?, t.next()?.into_address()?.as_bytes().to_vec(), t.next()?.into_fixed_bytes()?))
    } else {
        let (a, b, c, d): (String, String, [u8; 32], Vec<u8>) = bcs::from_bytes(b).ok()?;
        Some((a, b, c.to_vec(), d))
    }
}

/// operators with their weights, and the threshold
fn decode_operators(abi: bool, b: &[u8]) -> Option<(Vec<(Vec<u8>, String)>, String)> {
    if abi {
        let l = |t| ParamType::Array(Box::new(t));
        let mut t = abi_decode(&[l(ParamType::Address), l(ParamType::Uint(256)), ParamType::Uint(256)], b)?.into_iter();
        let a: Vec<Vec<u8>> = list(t.next()?).into_iter().filter_map(|x| x.into_address()).map(|x| x.as_bytes().to_vec()).collect();
        let w: Vec<String> = list(t.next()?).iter().map(uint).collect();
        (a.len() == w.len()).then_some(())?;
        Some((a.into_iter().zip(w).collect(), uint(&t.next()?)))
    } else {
        let (a, w, t): (Vec<Vec<u8>>, Vec<u128>, u128) = bcs::from_bytes(b).ok()?;
        (a.len() == w.len()).then_some(())?;
        Some((a.into_iter().zip(w.iter().map(|x| x.to_string())).collect(), t.to_string()))
    }
}

struct Proof {
    ops: Vec<(Vec<u8>, String)>,
    thr: String,
    sigs: Vec<Vec<u8>>,
}

/// The signed batch and its proof.
fn decode_execute(abi: bool, b: &[u8]) -> Option<(Vec<u8>, Proof)> {
    if abi {
        if b.len() < 4 || b[..4] != keccak(&[b"execute(bytes)"])[..4] {
            return None;
        }
        let input = abi_decode(&[ParamType::Bytes], &b[4..])?.pop()?.into_bytes()?;
        let mut t = abi_decode(&[ParamType::Bytes, ParamType::Bytes], &input)?.into_iter();
        let data = t.next()?.into_bytes()?;
        let proof = t.next()?.into_bytes()?;
        let l = |t| ParamType::Array(Box::new(t));
        let (ops, thr) = decode_operators(true, &proof)?;
        let sigs = abi_decode(&[l(ParamType::Address), l(ParamType::Uint(256)), ParamType::Uint(256), l(ParamType::Bytes)], &proof)?.pop()?;
        Some((data, Proof { ops, thr, sigs: list(sigs).into_iter().filter_map(|x| x.into_bytes()).collect() }))
    } else {
        let (data, proof): (Vec<u8>, Vec<u8>) = bcs::from_bytes(b).ok()?;
        let (a, w, t, sigs): (Vec<Vec<u8>>, Vec<u128>, u128, Vec<Vec<u8>>) = bcs::from_bytes(&proof).ok()?;
        (a.len() == w.len()).then_some(())?;
        Some((data, Proof { ops: a.into_iter().zip(w.iter().map(|x| x.to_string())).collect(), thr: t.to_string(), sigs }))
    }
}

/// What is signed for a batch.
fn digest(abi: bool, data: &[u8]) -> [u8; 32] {
    if abi {
        keccak(&[b"\x19Ethereum Signed Message:\n32", &keccak(&[data])])
    } else {
        keccak(&[b"\x19Sui Signed Message:\n", data])
    }
}

/// Does the destination take this for a signature of this operator?
fn verifies(abi: bool, op: &[u8], digest: &[u8; 32], sig: &[u8]) -> bool {
    if !abi && op.len() == 32 {
        let (Ok(k), Ok(s)) = (ed25519_zebra::VerificationKey::try_from(op), ed25519_zebra::Signature::try_from(sig)) else { return false };
        return k.verify(&s, digest).is_ok();
    }
    if sig.len() != 65 {
        return false;
    }
    let Ok(s) = k256::ecdsa::Signature::from_slice(&sig[..64]) else { return false };
    let base = if abi { 27 } else { 0 };
    let Some(id) = sig[64].checked_sub(base).and_then(k256::ecdsa::RecoveryId::from_byte) else { return false };
    // of the two encodings only the one with the low s is taken
    if s.normalize_s().is_some() {
        return false;
    }
    let Ok(k) = k256::ecdsa::VerifyingKey::recover_from_prehash(digest, &s, id) else { return false };
    if abi {
        evm_address(k.to_encoded_point(false).as_bytes()) == op
    } else {
        k.to_encoded_point(op.len() == 33).as_bytes() == op
    }
}

/// The batch of a GetProof answer, encoded once more.
fn encode_data(abi: bool, v: &Value) -> Option<Vec<u8>> {
    let cmds = v["commands"].as_array()?;
    let hexes = |k: &str| cmds.iter().map(|c| hex::decode(c[k].as_str().unwrap_or("")).unwrap_or_default()).collect::<Vec<_>>();
    let kinds: Vec<String> = cmds
        .iter()
        .map(|c| match c["ty"].as_str() {
            Some("approve_contract_call") => "approveContractCall".into(),
            Some("transfer_operatorship") => "transferOperatorship".into(),
            t => format!("{t:?}"),
        })
        .collect();
    let chain = v["destination_chain_id"].as_str()?;
    if abi {
        Some(ethabi::encode(&[
            Token::Uint(ethabi::ethereum_types::U256::from_dec_str(chain).ok()?),
            Token::Array(hexes("id").into_iter().map(Token::FixedBytes).collect()),
            Token::Array(kinds.into_iter().map(Token::String).collect()),
            Token::Array(hexes("params").into_iter().map(Token::Bytes).collect()),
        ]))
    } else {
        let ids: Vec<[u8; 32]> = hexes("id").into_iter().filter_map(|x| x.try_into().ok()).collect();
        bcs::to_bytes(&(chain.parse::<u64>().ok()?, ids, kinds, hexes("params"))).ok()
    }
}

impl M {
    pub fn new(seed: u64) -> Self {
        M {
            c: Conc::new(seed), k: Keys::default(), seed, abi: true, kt: String::new(), chain: String::new(), chain_id: String::new(),
            cmds: HashMap::new(), sets: HashMap::new(), ids: HashMap::new(), understood: HashMap::new(),
        }
    }

    fn operator(&self, key: &str) -> Vec<u8> {
        thread_local! {
            static KNOWN: std::cell::RefCell<HashMap<String, Vec<u8>>> = std::cell::RefCell::new(HashMap::new());
        }
        let (_, b) = public(key);
        if self.abi {
            KNOWN.with(|k| k.borrow_mut().entry(key.to_string()).or_insert_with(|| evm_address(&b)).clone())
        } else {
            b
        }
    }

    /// The name of the key that makes this operator.
    fn key_of(&self, a: &[u8]) -> String {
        thread_local! {
            static BACK: std::cell::RefCell<HashMap<(bool, Vec<u8>), String>> = std::cell::RefCell::new(HashMap::new());
        }
        BACK.with(|b| {
            let mut b = b.borrow_mut();
            if b.is_empty() {
                for k in crate::keys::names() {
                    let (_, pk) = public(&k);
                    if !k.starts_with('d') {
                        b.entry((true, evm_address(&pk))).or_insert_with(|| k.clone());
                    }
                    b.insert((false, pk), k);
                }
            }
            b.get(&(self.abi, a.to_vec())).cloned().unwrap_or_else(|| hex::encode(a))
        })
    }

    pub fn configure(&mut self, cfg: &Value) {
        self.abi = cfg["enc"] == json!("abi");
        self.kt = cfg["kt"].as_str().unwrap().to_string();
        self.chain = self.c.chain_canon(&cfg["chain"]);
        self.chain_id = self.some_chain_id();
    }

    /// The prover, once its neighbours are there.
    pub fn deploy(&mut self, w: &mut World, cfg: &Value) {
        let m = json!({
            "admin_address": "admin", "gateway_address": w.addr("gateway"), "multisig_address": w.addr("multisig"),
            "service_registry_address": w.addr("registry"), "voting_verifier_address": w.addr("verifier"),
            "destination_chain_id": self.chain_id, "signing_threshold": [cfg["thr"][0].to_string(), cfg["thr"][1].to_string()],
            "service_name": SERVICE, "chain_name": self.c.chain(&cfg["chain"]), "worker_set_diff_threshold": cfg["diff"],
            "encoder": cfg["enc"], "key_type": self.kt,
        });
        w.add("prover", contracts::prover(), &m).expect("prover");
    }

    fn some_chain_id(&self) -> String {
        match (self.abi, self.seed % 3) {
            (_, 0) => "1".into(),
            (true, _) => "57896044618658097711785492504343953926634992332820282019728792003956564819967".into(),
            (false, _) => u64::MAX.to_string(),
        }
    }

    /// Operators with weight 1 in ascending order, from a bag of key names.
    pub fn operators(&self, keys: &Value) -> Vec<(Vec<u8>, String)> {
        let mut v = vec![];
        for (k, n) in keys.as_object().cloned().unwrap_or_default() {
            for _ in 0..n.as_u64().unwrap_or(0) {
                v.push((self.operator(&k), "1".to_string()));
            }
        }
        v.sort();
        v
    }

    pub fn message(&mut self, m: &Value) -> Value {
        let mut v = self.c.canon(m);
        let h = keccak(&[b"destination", &self.seed.to_be_bytes(), m.to_string().as_bytes()]);
        let addr = if self.abi { h[..20].to_vec() } else { h.to_vec() };
        let text = match (m["v"].as_u64(), h[31] % 3) {
            (Some(9), 0) => "0x1234".to_string(),
            (Some(9), 1) => format!("0x{}00", hex::encode(&addr)),
            (Some(9), _) => "somewhere".to_string(),
            (_, 0) => hex::encode(&addr),
            _ => format!("0x{}", hex::encode(&addr)),
        };
        v["destination_address"] = json!(text);
        self.c.fix(m, &v);
        let (chain, id) = (v["cc_id"]["chain"].as_str().unwrap().to_string(), v["cc_id"]["id"].as_str().unwrap().to_string());
        let cmd = keccak(&[format!("{chain}:{id}").as_bytes()]);
        self.cmds.insert(
            json!([hex::encode(cmd), chain, v["source_address"], hex::encode(&addr), v["payload_hash"]]).to_string(),
            m.clone(),
        );
        self.ids.insert(v["cc_id"].to_string(), json!([m["c"], m["i"]]));
        v
    }

    pub fn set_of(&self, v: &Value) -> Value {
        let s = abs_set(&self.k, v);
        let mut who = Map::new();
        for (a, m) in s["who"].as_object().cloned().unwrap_or_default() {
            let ok = m["w"] == json!(1) && m.get("address").is_none() && m["k"]["ty"] == json!(self.kt);
            who.insert(a, if ok { m["k"]["n"].clone() } else { json!({ "unexpected": m }) });
        }
        json!({"who": who, "thr": s["thr"], "at": s["at"].as_i64().map(|h| h - HEIGHT0 as i64)})
    }

    /// Remembers the worker set that could be formed here and now with this threshold.
    pub fn know_set(&mut self, w: &World, active: &Value, thr: &str) {
        let mut signers = Map::new();
        for a in active.as_array().cloned().unwrap_or_default() {
            let Ok(pk) = w.query("multisig", &json!({"get_public_key": {"worker_address": a, "key_type": self.kt}})) else { return };
            signers.insert(a.as_str().unwrap().into(), json!({"address": a, "weight": "1", "pub_key": pk}));
        }
        let set = json!({"signers": signers, "threshold": thr, "created_at": w.app.block_info().height});
        let abs = self.set_of(&set);
        self.sets.insert(set_id(&set), abs);
    }

    /// What the commands of a batch say: the operators it announces first, and the messages.
    fn abs_commands(&self, v: &Value, chain_id: &str) -> (Value, Value) {
        let (mut ws, mut msgs) = (vec![], vec![]);
        if v["destination_chain_id"] != json!(chain_id) {
            ws.push(json!({ "wrong chain": v["destination_chain_id"] }));
        }
        for (n, c) in v["commands"].as_array().cloned().unwrap_or_default().iter().enumerate() {
            let id = c["id"].as_str().unwrap_or("").to_string();
            let params = hex::decode(c["params"].as_str().unwrap_or("")).unwrap_or_default();
            match c["ty"].as_str() {
                Some("transfer_operatorship") => {
                    let set = self.sets.get(&id).cloned();
                    let dec = decode_operators(self.abi, &params);
                    let fits = |s: &Value| {
                        let mut keys = Map::new();
                        for k in s["who"].as_object().unwrap().values() {
                            let k = k.as_str().unwrap_or("?").to_string();
                            let n = keys.get(&k).and_then(|x: &Value| x.as_u64()).unwrap_or(0);
                            keys.insert(k, json!(n + 1));
                        }
                        dec == Some((self.operators(&json!(keys)), s["thr"].to_string()))
                    };
                    match set {
                        Some(s) if n == 0 && fits(&s) => ws.push(s),
                        s => ws.push(json!({"command": n, "unknown set": s, "operators": format!("{dec:?}")})),
                    }
                }
                _ => {
                    let m = decode_approval(self.abi, &params).and_then(|(chain, sa, da, ph)| {
                        self.cmds.get(&json!([id, chain, sa, hex::encode(da), hex::encode(ph)]).to_string()).cloned()
                    });
                    msgs.push(match m {
                        Some(m) if c["ty"] == json!("approve_contract_call") => m,
                        _ => json!({ "unknown command": c }),
                    });
                }
            }
        }
        (json!(ws), json!(msgs))
    }

    pub fn proof(&mut self, w: &World, n: usize) -> Result<Value, String> {
        let v = w.query("prover", &json!({"get_proof": {"multisig_session_id": n.to_string()}})).map_err(|e| e.to_string())?;
        let signed = w.query("multisig", &json!({"get_multisig": {"session_id": n.to_string()}})).map_err(|e| e.to_string())?;
        let text = format!("{n} {} {v} {}", self.chain_id, signed["msg"]);
        if let Some(p) = self.understood.get(&text) {
            return Ok(p.clone());
        }
        let p = self.understand(&n.to_string(), &v, &signed);
        let s = p.to_string();
        if !s.contains("unknown") && !s.contains("false") {
            self.understood.insert(text, p.clone());
        }
        Ok(p)
    }

    pub fn understand(&self, n: &str, v: &Value, signed: &Value) -> Value {
        let (ws, msgs) = self.abs_commands(&v["data"], &self.chain_id);
        let ids: Vec<Value> = v["message_ids"].as_array().cloned().unwrap_or_default().iter().map(|x| self.ids.get(&x.to_string()).cloned().unwrap_or(x.clone())).collect();
        let mut out = json!({"ids": ids, "ws": ws, "msgs": msgs, "proof": []});
        if v["multisig_session_id"] != json!(n) {
            out["session"] = v["multisig_session_id"].clone();
        }
        if v["status"] == json!("pending") {
            return out;
        }
        let raw = hex::decode(v["status"]["completed"]["execute_data"].as_str().unwrap_or("")).unwrap_or_default();
        let Some((data, p)) = decode_execute(self.abi, &raw) else {
            out["proof"] = json!([{ "undecodable": v["status"] }]);
            return out;
        };
        // the batch inside is the one that was signed, which is the one reported
        let d = digest(self.abi, &data);
        let decoded = decode_batch(self.abi, &data);
        let listed: Commands = (
            v["data"]["destination_chain_id"].as_str().unwrap_or("").into(),
            v["data"]["commands"].as_array().cloned().unwrap_or_default().iter().map(|c| {
                let h = |k: &str| hex::decode(c[k].as_str().unwrap_or("")).unwrap_or_default();
                let kind = match c["ty"].as_str() { Some("approve_contract_call") => "approveContractCall", Some("transfer_operatorship") => "transferOperatorship", _ => "?" };
                (h("id"), kind.to_string(), h("params"))
            }).collect(),
        );
        let same = decoded == Some(listed) && hex_of(&signed["msg"]).map_or(true, |m| m == d.to_vec());
        // the signatures go with the operators in order
        let mut next = 0;
        let mut weight = Uint256::zero();
        let mut valid = true;
        for s in &p.sigs {
            match (next..p.ops.len()).find(|i| verifies(self.abi, &p.ops[*i].0, &d, s)) {
                Some(i) => {
                    weight += Uint256::try_from(p.ops[i].1.as_str()).unwrap_or_default();
                    next = i + 1;
                }
                None => valid = false,
            }
        }
        let mut bag = Map::new();
        for (a, wt) in &p.ops {
            let name = self.key_of(a);
            let n = bag.get(&name).and_then(|x: &Value| x.as_u64()).unwrap_or(0) + wt.parse::<u64>().unwrap_or(99);
            bag.insert(name, json!(n));
        }
        let ascending = p.ops.windows(2).all(|x| x[0].0 <= x[1].0);
        let enough = Uint256::try_from(p.thr.as_str()).map_or(false, |t| weight >= t);
        out["proof"] = json!([{"same": same, "ops": {"keys": bag, "thr": number(&json!(p.thr))}, "ascending": ascending, "valid": valid, "enough": enough}]);
        out
    }

    /// The operators of a finished proof by the names of their keys, with weights, and the threshold.
    pub fn listed(&self, v: &Value) -> Option<(Vec<(String, String)>, String)> {
        let raw = hex_of(&v["status"]["completed"]["execute_data"])?;
        let (_, p) = decode_execute(self.abi, &raw)?;
        Some((p.ops.iter().map(|(a, w)| (self.key_of(a), w.clone())).collect(), p.thr))
    }

    pub fn opened(&mut self, w: &World, o: &Outcome, cur_before: &Option<Value>) -> Value {
        let sid: Vec<u64> = wasm_events(&o.events, &w.addr("prover"))
            .iter()
            .filter(|(t, _)| t == "proof_under_construction")
            .filter_map(|(_, e)| attrs(e)["multisig_session_id"].trim_matches('"').parse().ok())
            .collect();
        let started: Vec<_> = wasm_events(&o.events, &w.addr("multisig")).iter().filter(|(t, _)| t == "signing_started").map(|(_, e)| attrs(e)).collect();
        if sid.is_empty() && started.is_empty() {
            return json!({"session": [], "set": [], "content": [], "registered": self.registered(w)});
        }
        if sid.len() != 1 || started.len() != 1 || started[0]["session_id"] != sid[0].to_string() {
            return json!({ "sessions": [sid, started] });
        }
        let s = &started[0];
        let set = match cur_before {
            Some(c) if set_id(c) == s["worker_set_id"] => json!([self.set_of(c)]),
            _ => json!([{"another": s["worker_set_id"]}]),
        };
        let v = w.query("prover", &json!({"get_proof": {"multisig_session_id": sid[0].to_string()}})).unwrap_or(Value::Null);
        let (ws, msgs) = self.abs_commands(&v["data"], &self.chain_id);
        let mut content = json!({"ws": ws, "msgs": msgs});
        let d = encode_data(self.abi, &v["data"]).map(|b| hex::encode(digest(self.abi, &b)));
        if d.as_deref() != Some(s["msg"].as_str()) {
            content["signs another batch"] = json!(s["msg"]);
        }
        if s["chain"] != self.chain {
            content["for chain"] = json!(s["chain"]);
        }
        json!({"session": sid, "set": set, "content": content, "registered": []})
    }

    /// Signs what the session asks for, with the key the session has for the signer.
    pub fn sign(&mut self, w: &mut World, q: &Value) -> Result<(), String> {
        let err = |e: anyhow::Error| e.to_string();
        let n = q["session"].to_string();
        let by = q["by"].as_str().unwrap();
        let v = w.query("multisig", &json!({"get_multisig": {"session_id": n}})).map_err(err)?;
        let key = v["signers"].as_array().cloned().unwrap_or_default().iter().find(|x| x[0]["address"] == json!(by)).map(|x| self.k.abs_public(&x[0]["pub_key"]));
        let key = key.unwrap_or_else(|| json!({"n": if self.kt == "ecdsa" { "e5" } else { "d5" }, "ty": self.kt}));
        let p = w.query("prover", &json!({"get_proof": {"multisig_session_id": n}})).map_err(err)?;
        let d = encode_data(self.abi, &p["data"]).map(|b| digest(self.abi, &b)).ok_or("no batch")?;
        let sig = self.k.signature_over(&json!({"k": key, "x": q["x"]}), &d);
        w.exec(by, "multisig", &json!({"submit_signature": {"session_id": n, "signature": sig}}), &[]).map_err(err)?;
        advance(w, 1);
        Ok(())
    }

    fn registered(&mut self, w: &World) -> Value {
        let Ok(v) = w.query("prover", &json!("get_worker_set")) else { return json!([]) };
        match w.query("multisig", &json!({"get_worker_set": {"worker_set_id": set_id(&v)}})) {
            Ok(r) => json!([self.set_of(&r)]),
            Err(_) => json!([]),
        }
    }

    pub fn ccid(&mut self, x: &Value) -> Value {
        self.c.ccid(&json!({"c": x[0], "i": x[1]}))
    }

    pub fn register_key(&mut self, w: &mut World, by: &str, key: &str) -> Result<(), String> {
        let ty = if key.starts_with('d') { "ed25519" } else { "ecdsa" };
        let pk = self.k.public_json(&json!({"n": key, "ty": ty}));
        w.exec(by, "multisig", &json!({"register_public_key": {"public_key": pk}}), &[]).map(|_| ()).map_err(|e| e.to_string())
    }

    pub fn deliver(&mut self, w: &mut World, m: &Value) -> Result<(), String> {
        let mut v = self.message(m);
        v["cc_id"]["chain"] = json!(self.c.chain(&m["c"]));
        v["destination_chain"] = json!(self.c.chain(&m["d"]));
        w.exec("router", "gateway", &json!({ "route_messages": [v] }), &[]).map(|_| ()).map_err(|e| e.to_string())
    }
}

fn hex_of(v: &Value) -> Option<Vec<u8>> {
    v.as_str().and_then(|s| hex::decode(s).ok())
}

impl Module for M {
    fn build(&mut self, init: &Value) -> World {
        let cfg = &init["cfg"];
        let mut w = World::new(&[]);
        self.configure(cfg);
        w.add("registry", registry(), &json!({})).expect("registry");
        w.program("registry", json!({"chain": self.chain, "active": init["active"]}));
        w.add("verifier", Box::new(Peer { answer: confirmed, respond: crate::world::no_data }), &json!({})).expect("verifier");
        w.program("verifier", json!({ "conf": [] }));
        w.add("rewards", Peer::silent(), &json!({})).expect("rewards");
        w.add("gateway", contracts::gateway(), &json!({"verifier_address": w.addr("verifier"), "router_address": "router"})).expect("gateway");
        w.add("multisig", contracts::multisig(), &json!({"governance_address": "gov", "rewards_address": w.addr("rewards"), "grace_period": 0})).expect("multisig");
        self.deploy(&mut w, cfg);
        w.exec("gov", "multisig", &json!({"authorize_caller": {"contract_address": w.addr("prover")}}), &[]).expect("authorize");
        for x in init["keys"].as_array().cloned().unwrap_or_default() {
            self.register_key(&mut w, x[0].as_str().unwrap(), x[1].as_str().unwrap()).expect("key");
        }
        for m in init["out"].as_array().cloned().unwrap_or_default() {
            self.deliver(&mut w, &m).expect("delivery");
        }
        w
    }

    fn exec(&mut self, w: &mut World, q: &Value) -> Result<Value, String> {
        let err = |e: anyhow::Error| e.to_string();
        match q["t"].as_str().unwrap() {
            "Advance" => {
                advance(w, q["n"].as_u64().unwrap());
                Ok(json!([]))
            }
            "SetActive" => {
                w.program("registry", json!({"active": q["who"]}));
                Ok(json!([]))
            }
            "RegisterKey" => self.register_key(w, q["by"].as_str().unwrap(), q["key"].as_str().unwrap()).map(|_| json!([])),
            "Allow" => {
                let verb = if q["on"] == json!(true) { "authorize_caller" } else { "unauthorize_caller" };
                w.exec("gov", "multisig", &json!({verb: {"contract_address": w.addr("prover")}}), &[]).map_err(err)?;
                Ok(json!([]))
            }
            "SetConf" => {
                let ops: Vec<Value> = self.operators(&q["ops"]["keys"]).iter().map(|(a, n)| json!([hex::encode(a), n])).collect();
                let x = json!({"weights_by_addresses": ops, "threshold": q["ops"]["thr"].to_string()});
                let mut conf = w.peek("verifier", "conf").as_array().cloned().unwrap_or_default();
                match conf.iter().position(|c| *c == x) {
                    Some(i) => {
                        conf.remove(i);
                    }
                    None => conf.push(x),
                }
                w.program("verifier", json!({ "conf": conf }));
                Ok(json!([]))
            }
            "Deliver" => self.deliver(w, &q["m"]).map(|_| json!([])),
            t @ ("Construct" | "Update" | "Confirm") => {
                let msg = match t {
                    "Construct" => {
                        let ids: Vec<Value> = q["ids"].as_array().unwrap().clone().iter().map(|x| self.ccid(x)).collect();
                        json!({"construct_proof": {"message_ids": ids}})
                    }
                    "Update" => json!("update_worker_set"),
                    _ => json!("confirm_worker_set"),
                };
                let active = w.peek("registry", "active");
                for thr in 1..=active.as_array().map_or(0, |a| a.len()) {
                    self.know_set(w, &active, &thr.to_string());
                }
                let cur = w.query("prover", &json!("get_worker_set")).ok();
                let o = w.exec("anyone", "prover", &msg, &[]).map_err(err)?;
                Ok(with_others(self.opened(w, &o, &cur), w, &o, &[]))
            }
            "Sign" => {
                self.sign(w, q).map(|_| json!([]))
            }
            t => panic!("request {t}"),
        }
    }

    fn observe(&mut self, w: &mut World, want: &Value) -> Value {
        let cur = match w.query("prover", &json!("get_worker_set")) {
            Ok(v) => json!([self.set_of(&v)]),
            Err(_) => json!([]),
        };
        let n = want["proofs"].as_array().map_or(0, |a| a.len());
        let mut proofs = vec![];
        for i in 1..=n + 1 {
            match self.proof(w, i) {
                Ok(p) => proofs.push(p),
                Err(e) if i <= n => proofs.push(json!(e)),
                Err(_) => {}
            }
        }
        json!({"cur": cur, "proofs": proofs})
    }
}
