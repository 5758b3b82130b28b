//! Real keys and signatures behind abstract names: e* compressed and u* uncompressed ECDSA, d* Ed25519.
use std::cell::RefCell;
use std::collections::HashMap;

use k256::ecdsa::signature::hazmat::PrehashSigner;
use serde_json::{json, Value};

use crate::concrete::keccak;

pub struct Keys {
    sigs: HashMap<String, String>,
    back: HashMap<String, Value>,
    pubs: HashMap<String, Value>,
}

impl Default for Keys {
    fn default() -> Self {
        let mut k = Keys { sigs: HashMap::new(), back: HashMap::new(), pubs: HashMap::new() };
        for n in names() {
            let ty = if n.starts_with('d') { "ed25519" } else { "ecdsa" };
            k.public_json(&json!({"n": n, "ty": ty}));
        }
        k
    }
}

/// The names of all keys there are.
pub fn names() -> Vec<String> {
    let all = [("e", 34), ("u", 3), ("d", 34)];
    all.iter().flat_map(|(p, n)| (1..*n).map(move |i| format!("{p}{i}"))).collect()
}

thread_local! {
    static ECDSA: RefCell<HashMap<String, k256::ecdsa::SigningKey>> = RefCell::new(HashMap::new());
    static PUBLIC: RefCell<HashMap<String, (String, Vec<u8>)>> = RefCell::new(HashMap::new());
}

fn ecdsa(name: &str) -> k256::ecdsa::SigningKey {
    ECDSA.with(|c| {
        c.borrow_mut()
            .entry(name.to_string())
            .or_insert_with(|| k256::ecdsa::SigningKey::from_slice(&keccak(&[b"ecdsa", name.as_bytes()])).expect("key"))
            .clone()
    })
}

fn ed(name: &str) -> ed25519_zebra::SigningKey {
    ed25519_zebra::SigningKey::from(keccak(&[b"ed25519", name.as_bytes()]))
}

pub fn message(name: &str) -> Vec<u8> {
    let h = keccak(&[b"message", name.as_bytes()]);
    match name {
        "short" => h[..31].to_vec(),
        "empty" => vec![],
        "long" => [&h[..], &h[..1]].concat(),
        _ => h.to_vec(),
    }
}

pub fn public(name: &str) -> (String, Vec<u8>) {
    PUBLIC.with(|c| c.borrow_mut().entry(name.to_string()).or_insert_with(|| make_public(name)).clone())
}

fn make_public(name: &str) -> (String, Vec<u8>) {
    match &name[..1] {
        "e" => ("ecdsa".into(), ecdsa(name).verifying_key().to_encoded_point(true).as_bytes().to_vec()),
        "u" => ("ecdsa".into(), ecdsa(name).verifying_key().to_encoded_point(false).as_bytes().to_vec()),
        "d" => ("ed25519".into(), <[u8; 32]>::from(ed25519_zebra::VerificationKey::from(&ed(name))).to_vec()),
        _ => match name {
            "x1" => ("ecdsa".into(), vec![2; 32]),
            "x2" => ("ed25519".into(), vec![2; 33]),
            _ => ("ecdsa".into(), vec![4; 64]),
        },
    }
}

impl Keys {
    /// {"ecdsa": hex} or {"ed25519": hex}
    pub fn public_json(&mut self, key: &Value) -> Value {
        let (ty, bytes) = public(key["n"].as_str().unwrap());
        let v = json!({ ty: hex::encode(bytes) });
        self.pubs.insert(v.to_string(), key.clone());
        v
    }

    pub fn abs_public(&self, v: &Value) -> Value {
        self.pubs.get(&v.to_string()).cloned().unwrap_or_else(|| json!({ "unknown key": v }))
    }

    /// The hex encoding of a signature [k, m, x] over named messages.
    pub fn signature(&mut self, s: &Value) -> String {
        self.signature_over(s, &message(s["m"].as_str().unwrap()))
    }

    pub fn signature_over(&mut self, s: &Value, msg: &[u8]) -> String {
        let id = format!("{s}{}", hex::encode(msg));
        if let Some(x) = self.sigs.get(&id) {
            return x.clone();
        }
        let name = s["k"]["n"].as_str().unwrap();
        let form = s["x"].as_str().unwrap();
        let other = keccak(&[b"other", msg]);
        let over: &[u8] = if form == "long" { &other } else { msg };
        let mut b: Vec<u8> = match &name[..1] {
            "e" | "u" => {
                let sig: k256::ecdsa::Signature = ecdsa(name).sign_prehash(over).expect("signature");
                let sig = sig.normalize_s().unwrap_or(sig);
                if form == "alt" {
                    let (r, s) = (sig.r(), sig.s());
                    k256::ecdsa::Signature::from_scalars(r.to_bytes(), (-*s).to_bytes()).expect("high s").to_vec()
                } else {
                    sig.to_vec()
                }
            }
            _ => <[u8; 64]>::from(ed(name).sign(over)).to_vec(),
        };
        match form {
            "ok" => {}
            "alt" if &name[..1] != "d" => {}
            "alt" => b[40] ^= 4,
            "junk" => b[10] ^= 1,
            "short" => {
                b.pop();
            }
            "long" => b.push(27),
            "none" => b.clear(),
            x => panic!("signature form {x}"),
        }
        let h = hex::encode(b);
        self.back.insert(h.clone(), s.clone());
        self.sigs.insert(id, h.clone());
        h
    }

    pub fn abs_signature(&self, h: &str) -> Value {
        self.back.get(h).cloned().unwrap_or_else(|| json!({ "unknown signature": h }))
    }
}
