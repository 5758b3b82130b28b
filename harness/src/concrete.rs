//! Concrete values behind the specification's abstract ones. Chains get names whose letter case varies from use to
//! use, messages get contents derived from their abstract identity, and everything is mapped back by exact match.
use std::collections::{BTreeMap, HashMap};

use cosmwasm_std::Event;
use serde_json::{json, Value};
use sha3::{Digest, Keccak256};

pub fn keccak(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Keccak256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

/// Another text, much like the given one.
fn twist(text: &str, other: &[u8], manner: u64) -> String {
    let mut b: Vec<u8> = text.bytes().collect();
    let last = b.len() - 1;
    let change = |c: u8| if c == b'7' { b'8' } else { b'7' };
    match manner % 8 {
        0 => return format!("0x{}", hex::encode(&other[0..20])),
        1 => {
            let i = b.iter().rposition(|c| c.is_ascii_lowercase()).expect("letter");
            b[i].make_ascii_uppercase();
        }
        2 => b.truncate(last),
        3 => b.push(b'0'),
        4 => b[last] = change(b[last]),
        5 => b[0] = change(b[0]),
        6 => b[last / 2] = change(b[last / 2]),
        _ => b.push(b' '),
    }
    String::from_utf8(b).expect("text")
}

pub struct Conc {
    seed: u64,
    n: u64,
    back: HashMap<String, Value>,
    ids: HashMap<String, Value>,
    fixed: HashMap<String, Value>,
    subtle: bool,
}

impl Conc {
    pub fn new(seed: u64) -> Self {
        Conc { seed, n: 0, back: HashMap::new(), ids: HashMap::new(), fixed: HashMap::new(), subtle: false }
    }

    /// Contents under the same id then mostly differ in very little (and need not be valid addresses).
    pub fn subtle(seed: u64) -> Self {
        Conc { subtle: true, ..Self::new(seed) }
    }

    fn base(&self, chain: &str) -> String {
        match chain {
            "A" => "ethereum".into(),
            "B" => "avalanche".into(),
            "C" => "ethereum-2".into(),
            "D" => "sui".into(),
            "X" => "terra-2".into(),
            "Y" => "ethereu".into(),
            "E" => "polygon".into(),
            "F" => "fantom".into(),
            "G" => "binance".into(),
            "H" => "moonbeam".into(),
            "J" => "osmosis-11".into(),
            "K" => "osmosis-1".into(),
            "L" => "kava".into(),
            "M" => "zz".into(),
            "N" => "a1".into(),
            c => c.to_lowercase(),
        }
    }

    /// Some spelling of the chain's name.
    pub fn chain(&mut self, c: &Value) -> String {
        let b = self.base(c.as_str().expect("chain"));
        self.n += 1;
        let h = keccak(&[&self.seed.to_be_bytes(), &self.n.to_be_bytes()]);
        b.chars()
            .enumerate()
            .map(|(i, c)| if h[i % 32] & 3 == 0 { c.to_ascii_uppercase() } else { c })
            .collect()
    }

    /// The canonical (stored) spelling.
    pub fn chain_canon(&self, c: &Value) -> String {
        self.base(c.as_str().expect("chain"))
    }

    pub fn abs_chain(&self, name: &str) -> String {
        for c in ["A", "B", "C", "D", "X", "Y", "E", "F", "G", "H", "J", "K", "L", "M", "N"] {
            if self.base(c) == name {
                return c.into();
            }
        }
        format!("?{name}")
    }

    /// The full message behind an abstract one, with canonical chain names. Fields c, i, d are its source chain, id
    /// and destination chain; an optional v tells apart contents under the same id.
    pub fn canon(&mut self, m: &Value) -> Value {
        if let Some(v) = self.fixed.get(&m.to_string()) {
            return v.clone();
        }
        // messages share most of their contents: those of one id differ in a single field, and neighbouring ids have
        // equal contents
        let group = m["i"].as_u64().map_or(m["i"].to_string(), |i| if i == 86 { 42 } else { i / 2 }.to_string());
        let h = keccak(&[b"msg", &self.seed.to_be_bytes(), group.as_bytes()]);
        let version = m["v"].as_u64().unwrap_or(1);
        let other = keccak(&[b"other", &h, &version.to_be_bytes()]);
        let field = if version <= 1 { 3 } else { (version + self.seed + m["i"].as_u64().unwrap_or(0)) % 3 };
        let pick = |n: u64| if field == n && !self.subtle { other } else { h };
        let mut source = format!("0x{}", hex::encode(&pick(0)[0..20]));
        let mut destination = hex::encode(&pick(1)[12..32]);
        let mut payload = keccak(&[b"payload", &pick(2)]);
        if self.subtle && version > 1 {
            // (versions that differ from the first in the same field do so in different manners)
            let manner = keccak(&[b"manner", &h])[0] as u64 + (version - 2) / 3;
            match field {
                0 => source = twist(&source, &other, manner),
                1 => destination = twist(&destination, &other, manner),
                _ => payload[other[0] as usize % 32] ^= (manner as u8 & 0x7f) + 1,
            }
        }
        // pairs whose texts are equal when strung together
        match (m["i"].as_u64(), m["d"].as_str()) {
            (Some(85), _) => source = format!("0{source}"),
            (Some(87), Some("A")) => destination = format!("-2{destination}"),
            _ => {}
        }
        let c = self.chain_canon(&m["c"]);
        let d = self.chain_canon(&m["d"]);
        let id = self.msg_id(&m["i"]);
        let v = json!({
            "cc_id": {"chain": c, "id": id},
            "source_address": source,
            "destination_chain": d,
            "destination_address": destination,
            "payload_hash": hex::encode(payload),
        });
        self.back.insert(v.to_string(), m.clone());
        v
    }

    /// From now on this stands for the message.
    pub fn fix(&mut self, m: &Value, v: &Value) {
        self.back.insert(v.to_string(), m.clone());
        self.fixed.insert(m.to_string(), v.clone());
    }

    pub fn msg_id(&mut self, i: &Value) -> String {
        if let Some(s) = i.as_str() {
            return s.to_string();
        }
        // awkward but well-formed ids, and (from 90 on) malformed ones
        match i.as_u64() {
            Some(80) => return "0xabc:18446744073709551615".into(),
            Some(81) => return "0xabc:0".into(),
            Some(85) => return "0xabd:1".into(),
            Some(86) => return "0xabd:10".into(),
            Some(90) => return "nocolon".into(),
            Some(91) => return "0xabc:x".into(),
            Some(92) => return "0xabc:1:2".into(),
            Some(93) => return ":1".into(),
            Some(94) => return "0xabc:-1".into(),
            Some(95) => return "0xabc:18446744073709551616".into(),
            Some(96) => return "0xabc:".into(),
            // looks like the list of two others, of chain A
            Some(97) => {
                let mut two = [self.msg_id(&json!(1)), self.msg_id(&json!(2))];
                two.sort();
                return format!("{},{}:{}", two[0], self.base("A"), two[1]);
            }
            _ => {}
        }
        let h = keccak(&[b"tx", &self.seed.to_be_bytes(), i.to_string().as_bytes()]);
        // from 60 to 69 as nexus writes them
        let prefix = if (60..70).contains(&i.as_u64().unwrap_or(0)) { "" } else { "0x" };
        format!("{prefix}{}:{}", hex::encode(h), i.as_u64().unwrap_or(0))
    }

    /// The message as a user sends it (chain names in any spelling).
    pub fn msg(&mut self, m: &Value) -> Value {
        let mut v = self.canon(m);
        v["cc_id"]["chain"] = json!(self.chain(&m["c"]));
        v["destination_chain"] = json!(self.chain(&m["d"]));
        v
    }

    pub fn msgs(&mut self, ms: &Value) -> Vec<Value> {
        ms.as_array().expect("messages").clone().iter().map(|m| self.msg(m)).collect()
    }

    pub fn abs_msg(&self, v: &Value) -> Value {
        self.back.get(&v.to_string()).cloned().unwrap_or_else(|| json!({ "unknown message": v }))
    }

    pub fn abs_msgs(&self, v: &Value) -> Value {
        match v.as_array() {
            Some(a) => Value::Array(a.iter().map(|m| self.abs_msg(m)).collect()),
            None => json!({ "unexpected": v }),
        }
    }

    pub fn ccid(&mut self, m: &Value) -> Value {
        let v = json!({"chain": self.chain(&m["c"]), "id": self.msg_id(&m["i"])});
        v
    }

    pub fn abs_ccid(&mut self, v: &Value) -> Value {
        let key = v.to_string();
        if let Some(x) = self.ids.get(&key) {
            return x.clone();
        }
        json!({ "unknown id": v })
    }

    pub fn know_id(&mut self, m: &Value, x: &Value) {
        let v = json!({"chain": self.chain_canon(&m["c"]), "id": self.msg_id(&m["i"])});
        self.ids.insert(v.to_string(), x.clone());
    }

    pub fn abs_event_msg(&self, a: &BTreeMap<String, String>) -> Value {
        let g = |k: &str| a.get(k).cloned().unwrap_or_default();
        let v = json!({
            "cc_id": {"chain": g("source_chain"), "id": g("id")},
            "source_address": g("source_addresses"),
            "destination_chain": g("destination_chain"),
            "destination_address": g("destination_addresses"),
            "payload_hash": g("payload_hash"),
        });
        self.abs_msg(&v)
    }
}

/// The typed events a contract emitted, as (type, event).
pub fn wasm_events(events: &[Event], contract: &str) -> Vec<(String, Event)> {
    events
        .iter()
        .filter(|e| e.ty.starts_with("wasm-"))
        .filter(|e| e.attributes.iter().any(|a| a.key.starts_with("_contract_addr") && a.value == contract))
        .map(|e| (e.ty["wasm-".len()..].to_string(), e.clone()))
        .collect()
}
