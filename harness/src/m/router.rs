//! contracts/connection-router against spec/Router.tla
use std::collections::BTreeMap;

use serde_json::{json, Value};

use crate::concrete::{wasm_events, Conc};
use crate::contracts;
use crate::engine::Module;
use crate::world::{attrs, with_others, Outcome, Peer, World};

pub struct M {
    c: Conc,
}

impl M {
    pub fn new(seed: u64) -> Self {
        M { c: Conc::subtle(seed) }
    }
    fn out(&mut self, w: &World, o: Outcome) -> Value {
        let mut sent: BTreeMap<String, Vec<Value>> = BTreeMap::new();
        for s in &o.sent {
            let l = sent.entry(w.name_of(&s.to)).or_default();
            match self.c.abs_msgs(&s.msg["route_messages"]) {
                Value::Array(a) => l.extend(a),
                v => l.push(v),
            }
        }
        let ev: Vec<Value> = wasm_events(&o.events, &w.addr("router"))
            .into_iter()
            .map(|(ty, e)| match ty.as_str() {
                "message_routed" => json!([ty, self.c.abs_event_msg(&attrs(&e))]),
                "gateway_upgraded" => json!([ty, self.c.abs_chain(&attrs(&e)["chain"])]),
                _ => json!([ty, self.c.abs_chain(&attrs(&e)["name"])]),
            })
            .collect();
        with_others(json!({ "sent": sent, "ev": ev }), w, &o, &[("*", "route_messages")])
    }
}

/// A request on the wire.
pub fn request(c: &mut Conc, w: &World, q: &Value) -> Value {
    let dir = |d: &Value| match d.as_str().unwrap() {
        "none" => "None",
        "in" => "Incoming",
        "out" => "Outgoing",
        "both" => "Bidirectional",
        x => panic!("direction {x}"),
    };
    match q["t"].as_str().unwrap() {
        "Register" => json!({"register_chain": {"chain": c.chain(&q["chain"]), "gateway_address": w.addr(q["gw"].as_str().unwrap())}}),
        "Upgrade" => json!({"upgrade_gateway": {"chain": c.chain(&q["chain"]), "contract_address": w.addr(q["gw"].as_str().unwrap())}}),
        "Freeze" => json!({"freeze_chain": {"chain": c.chain(&q["chain"]), "direction": dir(&q["dir"])}}),
        "Unfreeze" => json!({"unfreeze_chain": {"chain": c.chain(&q["chain"]), "direction": dir(&q["dir"])}}),
        "Route" => json!({ "route_messages": c.msgs(&q["msgs"]) }),
        t => panic!("request {t}"),
    }
}

/// What the router reports about chains.
pub fn chains(conc: &mut Conc, w: &World, want: &Value) -> Value {
    let mut chains = serde_json::Map::new();
    for c in want.as_object().unwrap().keys() {
        let v = match w.query("router", &json!({"get_chain_info": conc.chain(&json!(c))})) {
            Err(_) => json!({"none": true}),
            Ok(v) => {
                let f = v["frozen_status"].as_u64().unwrap_or(99);
                let name = conc.abs_chain(v["name"].as_str().unwrap());
                if &name != c {
                    json!({ "wrong name": name })
                } else {
                    json!({"gw": w.name_of(v["gateway"]["address"].as_str().unwrap()), "fin": f & 1 != 0, "fout": f & 2 != 0})
                }
            }
        };
        chains.insert(c.clone(), v);
    }
    json!(chains)
}

impl Module for M {
    fn build(&mut self, cfg: &Value) -> World {
        let mut w = World::new(&[]);
        for g in ["g1", "g2", "g3", "g4", "g5", "g6", "g7", "g8", "g9", "g10", "g11", "g12", "g13", "g14", "g15", "nexus"] {
            w.add(g, Peer::silent(), &json!({})).expect("peer");
        }
        let init = json!({
            "admin_address": w.addr(cfg["admin"].as_str().unwrap()),
            "governance_address": w.addr(cfg["gov"].as_str().unwrap()),
            "nexus_gateway": w.addr(cfg["nexus"].as_str().unwrap()),
        });
        w.add("router", contracts::router(), &init).expect("router");
        w
    }

    fn exec(&mut self, w: &mut World, q: &Value) -> Result<Value, String> {
        let by = q["by"].as_str().unwrap();
        let msg = request(&mut self.c, w, q);
        let o = w.exec(by, "router", &msg, &[]).map_err(|e| e.to_string())?;
        Ok(self.out(w, o))
    }

    fn observe(&mut self, w: &mut World, want: &Value) -> Value {
        json!({ "chains": chains(&mut self.c, w, &want["chains"]) })
    }
}
