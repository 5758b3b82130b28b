//! contracts/nexus-gateway against spec/Nexus.tla
use std::collections::HashMap;

use serde_json::{json, Value};

use crate::concrete::{keccak, Conc};
use crate::contracts;
use crate::engine::Module;
use crate::m::gateway::sorted_like;
use crate::m::multisig::wide;
use crate::world::{with_others, Outcome, Peer, World};

pub struct M {
    c: Conc,
    seed: u64,
    /// contents back to (c, d, v)
    contents: HashMap<String, Value>,
    /// transaction bytes and index back to the abstract reference
    txs: HashMap<String, Value>,
    /// written ids of messages from nexus back to the abstract id
    ids: HashMap<String, Value>,
    seen: Vec<Value>,
}

impl M {
    pub fn new(seed: u64) -> Self {
        M { c: Conc::new(seed), seed, contents: HashMap::new(), txs: HashMap::new(), ids: HashMap::new(), seen: vec![] }
    }

    fn tx_bytes(&self, n: u64, short: bool) -> Vec<u8> {
        match (n, short) {
            (0, _) => vec![],
            (_, true) => vec![n as u8],
            _ => keccak(&[b"tx", &self.seed.to_be_bytes(), &n.to_be_bytes()]).to_vec(),
        }
    }

    fn id(&self, i: &Value) -> String {
        let n = i["n"].as_u64().unwrap();
        let h = hex::encode(self.tx_bytes(n, false));
        let x = wide(&i["x"]);
        match i["f"].as_str().unwrap() {
            "std" => format!("0x{h}:{x}"),
            "bare" => format!("{h}:{x}"),
            "upper" => format!("0x{}:{x}", h.to_uppercase()),
            "zeros" => format!("0x{h}:00{x}"),
            "short" => format!("0x{}:{x}", hex::encode(self.tx_bytes(n, true))),
            "bareshort" => format!("{}:{x}", hex::encode(self.tx_bytes(n, true))),
            "three" => format!("0x{h}:{x}:1"),
            "nohex" => format!("0x{h}zz:{x}"),
            "odd" => format!("0x{h}0:{x}"),
            "empty" => format!("0x:{x}"),
            "neg" => format!("0x{h}:-1"),
            "over" => format!("0x{h}:18446744073709551616"),
            "nocolon" => h,
            "noindex" => format!("0x{h}:"),
            "words" => format!("transaction number {n}: event {x}"),
            f => panic!("form {f}"),
        }
    }

    /// Remembers how the reference of a message with this id would look on the nexus side.
    fn know_id(&mut self, i: &Value) {
        let n = i["n"].as_u64().unwrap();
        let (bytes, index, abs) = match i["f"].as_str().unwrap() {
            f @ ("std" | "bare" | "upper" | "zeros" | "short") => {
                (self.tx_bytes(n, f == "short"), wide(&i["x"]), json!({"n": i["n"], "short": f == "short", "x": i["x"]}))
            }
            _ => (self.id(i).into_bytes(), u64::MAX, json!({"raw": i, "x": 2147483647})),
        };
        self.txs.insert(json!([bytes, index]).to_string(), abs);
    }

    fn content(&mut self, m: &Value) -> (String, String, String) {
        let key = json!({"c": m["c"], "d": m["d"], "v": m["v"]});
        let h = keccak(&[b"content", &self.seed.to_be_bytes(), key.to_string().as_bytes()]);
        let sa = format!("0x{}", hex::encode(&h[0..20]));
        let da = format!("dest/{}", hex::encode(&h[12..32]));
        let ph = hex::encode(keccak(&[b"payload", &h]));
        let (c, d) = (self.c.chain_canon(&m["c"]), self.c.chain_canon(&m["d"]));
        self.contents.insert(json!([c, sa, d, da, ph]).to_string(), key);
        (sa, da, ph)
    }

    fn router_msg(&mut self, m: &Value) -> Value {
        let (sa, da, ph) = self.content(m);
        self.know_id(&m["i"]);
        json!({
            "cc_id": {"chain": self.c.chain(&m["c"]), "id": self.id(&m["i"])},
            "source_address": sa, "destination_chain": self.c.chain(&m["d"]), "destination_address": da, "payload_hash": ph,
        })
    }

    fn nexus_msg(&mut self, m: &Value) -> Value {
        let (sa, da, ph) = self.content(m);
        let tx = &m["tx"];
        let short = tx["short"] == json!(true);
        let i = json!({"f": if short { "bareshort" } else { "bare" }, "n": tx["n"], "x": tx["x"]});
        self.ids.insert(self.id(&i), i);
        json!({
            "source_chain": self.c.chain(&m["c"]), "source_address": sa,
            "destination_chain": self.c.chain(&m["d"]), "destination_address": da,
            "payload_hash": hex::decode(ph).unwrap(),
            "source_tx_id": self.tx_bytes(tx["n"].as_u64().unwrap(), short), "source_tx_index": wide(&tx["x"]),
        })
    }

    fn abs(&self, parts: Value) -> Value {
        self.contents.get(&parts.to_string()).cloned().unwrap_or_else(|| json!({ "unknown contents": parts }))
    }

    fn out(&self, w: &World, o: &Outcome) -> Value {
        let (mut nexus, mut router) = (vec![], vec![]);
        for s in &o.sent {
            let m = &s.msg;
            if s.to == "CUSTOM" {
                let ph: Vec<u8> = serde_json::from_value(m["payload_hash"].clone()).unwrap_or_default();
                let mut a = self.abs(json!([m["source_chain"], m["source_address"], m["destination_chain"], m["destination_address"], hex::encode(ph)]));
                let tx = json!([m["source_tx_id"], m["source_tx_index"]]);
                a["tx"] = self.txs.get(&tx.to_string()).cloned().unwrap_or(json!({ "unknown": tx }));
                nexus.push(a);
            } else if w.name_of(&s.to) == "router" {
                for m in m["route_messages"].as_array().cloned().unwrap_or(vec![m.clone()]) {
                    let mut a = self.abs(json!([m["cc_id"]["chain"], m["source_address"], m["destination_chain"], m["destination_address"], m["payload_hash"]]));
                    let i = m["cc_id"]["id"].as_str().unwrap_or("");
                    a["i"] = self.ids.get(i).cloned().unwrap_or(json!({ "unknown": i }));
                    router.push(a);
                }
            } else {
                router.push(json!({ "elsewhere": w.name_of(&s.to) }));
            }
        }
        with_others(json!({ "nexus": nexus, "router": router }), w, o, &[("CUSTOM", "source_chain"), ("router", "route_messages")])
    }
}

impl Module for M {
    fn build(&mut self, cfg: &Value) -> World {
        let mut w = World::new(&[]);
        w.add("router", Peer::silent(), &json!({})).expect("router");
        let init = json!({"nexus": w.addr(cfg["nexus"].as_str().unwrap()), "router": w.addr(cfg["router"].as_str().unwrap())});
        w.add("bridge", contracts::nexus_gateway(), &init).expect("nexus gateway");
        w
    }

    fn exec(&mut self, w: &mut World, q: &Value) -> Result<Value, String> {
        let by = q["by"].as_str().unwrap();
        let msgs = q["msgs"].as_array().unwrap().clone();
        let msg = match q["t"].as_str().unwrap() {
            "Out" => {
                for m in &msgs {
                    let x = json!([m["c"], m["i"]]);
                    if !self.seen.contains(&x) {
                        self.seen.push(x);
                    }
                }
                json!({"route_messages": msgs.iter().map(|m| self.router_msg(m)).collect::<Vec<_>>()})
            }
            "In" => json!({"route_messages_from_nexus": msgs.iter().map(|m| self.nexus_msg(m)).collect::<Vec<_>>()}),
            t => panic!("request {t}"),
        };
        let o = w.exec(by, "bridge", &msg, &[]).map_err(|e| e.to_string())?;
        Ok(self.out(w, &o))
    }

    /// The contract has no queries: an id is gone if the contract would not send it out any more.
    fn observe(&mut self, w: &mut World, want: &Value) -> Value {
        let mut all = want["gone"].as_array().cloned().unwrap_or_default();
        for x in &self.seen {
            if !all.contains(x) {
                all.push(x.clone());
            }
        }
        let mut gone = vec![];
        let here = w.snapshot();
        for x in all {
            let m = self.router_msg(&json!({"c": x[0], "i": x[1], "d": "B", "v": 1}));
            match w.exec("router", "bridge", &json!({ "route_messages": [m] }), &[]) {
                Ok(o) if o.sent.is_empty() => gone.push(x),
                Ok(_) => {}
                Err(e) => gone.push(json!({"refused": x, "why": e.to_string()})),
            }
            w.restore(&here);
        }
        json!({ "gone": sorted_like(&want["gone"], gone) })
    }
}
