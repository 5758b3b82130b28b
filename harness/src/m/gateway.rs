//! contracts/gateway (and contracts/aggregate-verifier in front of its verifier) against spec/Gateway.tla
use cosmwasm_std::{Env, Storage};
use serde_json::{json, Value};

use crate::concrete::{wasm_events, Conc};
use crate::contracts;
use crate::engine::Module;
use crate::world::{attrs, programmed, with_others, Outcome, Peer, World};

pub struct M {
    c: Conc,
    ids: Vec<Value>,
    front: bool,
}

fn statuses(msgs: &Value, storage: &dyn Storage) -> Vec<Value> {
    let ver = programmed(storage, "ver");
    let ver = ver.as_array().cloned().unwrap_or_default();
    msgs.as_array().cloned().unwrap_or_default().iter().map(|m| json!([m["cc_id"], ver.contains(m)])).collect()
}

fn answer(q: &Value, s: &dyn Storage, _: &Env) -> anyhow::Result<Value> {
    if programmed(s, "mode") == json!("qdown") {
        anyhow::bail!("verifier is down");
    }
    Ok(json!(statuses(&q["is_verified"]["messages"], s)))
}

fn respond(q: &Value, s: &mut dyn Storage, _: &Env) -> anyhow::Result<Option<Value>> {
    if programmed(s, "mode") == json!("xdown") {
        anyhow::bail!("verifier refuses");
    }
    Ok(Some(json!({ "verification_statuses": statuses(&q["verify_messages"]["messages"], s) })))
}

fn router_respond(_: &Value, s: &mut dyn Storage, _: &Env) -> anyhow::Result<Option<Value>> {
    if programmed(s, "mode") == json!("rdown") {
        anyhow::bail!("router refuses");
    }
    Ok(None)
}

impl M {
    pub fn new(seed: u64) -> Self {
        M { c: Conc::subtle(seed), ids: vec![], front: false }
    }

    fn abs_statuses(&mut self, v: &Value) -> Value {
        let a = if v.is_array() { v.clone() } else { v["verification_statuses"].clone() };
        match a.as_array() {
            None => json!({ "unexpected": v }),
            Some(a) => a.iter().map(|x| json!([self.c.abs_ccid(&x[0]), x[1]])).collect(),
        }
    }

    fn sent(&self, w: &World, o: &Outcome, to: &str, key: &str, inner: Option<&str>) -> Value {
        let mut l = vec![];
        for s in o.sent.iter().filter(|s| w.name_of(&s.to) == to) {
            let v = match inner {
                Some(i) => &s.msg[key][i],
                None => &s.msg[key],
            };
            match self.c.abs_msgs(v) {
                Value::Array(a) => l.extend(a),
                v => l.push(v),
            }
        }
        json!(l)
    }

    fn out(&self, w: &World, o: Outcome) -> Value {
        let mut routed = vec![];
        let mut failed = vec![];
        for (ty, e) in wasm_events(&o.events, &w.addr("gateway")) {
            match ty.as_str() {
                "message_routed" => routed.push(self.c.abs_event_msg(&attrs(&e))),
                "message_routing_failed" => failed.push(self.c.abs_event_msg(&attrs(&e))),
                _ => {}
            }
        }
        let out = json!({
            "verifier": self.sent(w, &o, "vv", "verify_messages", Some("messages")),
            "router": self.sent(w, &o, "router", "route_messages", None),
            "routed": routed, "failed": failed,
        });
        with_others(out, w, &o, &[("vv", "verify_messages"), ("router", "route_messages")])
    }

    fn ccid(&mut self, x: &Value) -> Value {
        let m = json!({"c": x[0], "i": x[1]});
        self.c.ccid(&m)
    }

    fn know(&mut self, q: &Value) {
        for m in q["msgs"].as_array().cloned().unwrap_or_default() {
            let x = json!([m["c"], m["i"]]);
            if !self.ids.contains(&x) {
                self.c.know_id(&m, &x);
                self.ids.push(x);
            }
        }
    }
}

impl Module for M {
    fn build(&mut self, cfg: &Value) -> World {
        let mut w = World::new(&[]);
        w.add("router", Box::new(Peer { answer: crate::world::no_answer, respond: router_respond }), &json!({})).expect("router");
        w.add("vv", Box::new(Peer { answer, respond }), &json!({})).expect("verifier");
        self.front = cfg["front"] == json!(true);
        let verifier = if self.front {
            w.add("agg", contracts::aggregate_verifier(), &json!({"verifier_address": w.addr("vv")})).expect("aggregate verifier");
            "agg"
        } else {
            "vv"
        };
        let init = json!({"verifier_address": w.addr(verifier), "router_address": w.addr("router")});
        w.add("gateway", contracts::gateway(), &init).expect("gateway");
        w
    }

    fn exec(&mut self, w: &mut World, q: &Value) -> Result<Value, String> {
        self.know(q);
        let by = q["by"].as_str().unwrap_or("user").to_string();
        let err = |e: anyhow::Error| e.to_string();
        match q["t"].as_str().unwrap() {
            "SetVer" => {
                let cur = w.peek("vv", "ver");
                let mut cur = cur.as_array().cloned().unwrap_or_default();
                let m = self.c.canon(&q["m"]);
                if let Some(i) = cur.iter().position(|x| *x == m) {
                    cur.remove(i);
                } else {
                    cur.push(m);
                }
                w.program("vv", json!({ "ver": cur }));
                Ok(json!([]))
            }
            "SetMode" => {
                w.program("vv", json!({"mode": q["mode"]}));
                w.program("router", json!({"mode": q["mode"]}));
                Ok(json!([]))
            }
            "Verify" => {
                let msg = json!({"verify_messages": self.c.msgs(&q["msgs"])});
                let o = w.exec(&by, "gateway", &msg, &[]).map_err(err)?;
                Ok(self.out(w, o))
            }
            "Route" => {
                let msg = json!({"route_messages": self.c.msgs(&q["msgs"])});
                let o = w.exec(&by, "gateway", &msg, &[]).map_err(err)?;
                Ok(self.out(w, o))
            }
            "Get" => {
                let ids: Vec<Value> = q["ids"].as_array().unwrap().clone().iter().map(|x| self.ccid(x)).collect();
                let v = w.query("gateway", &json!({"get_messages": {"message_ids": ids}})).map_err(err)?;
                Ok(self.c.abs_msgs(&v))
            }
            "FrontVerify" => {
                let msg = json!({"verify_messages": {"messages": self.c.msgs(&q["msgs"])}});
                let o = w.exec(&by, "agg", &msg, &[]).map_err(err)?;
                let data: Value = match &o.data {
                    Some(d) => serde_json::from_slice(d).map_err(|e| e.to_string())?,
                    None => json!("no data"),
                };
                let out = json!({"verifier": self.sent(w, &o, "vv", "verify_messages", Some("messages")), "data": self.abs_statuses(&data)});
                Ok(with_others(out, w, &o, &[("vv", "verify_messages")]))
            }
            "FrontQuery" => {
                let msg = json!({"is_verified": {"messages": self.c.msgs(&q["msgs"])}});
                let v = w.query("agg", &msg).map_err(err)?;
                Ok(self.abs_statuses(&v))
            }
            t => panic!("request {t}"),
        }
    }

    fn observe(&mut self, w: &mut World, want: &Value) -> Value {
        // every id seen so far, in the outbox or not
        let mut known = self.ids.clone();
        for m in want["out"].as_array().cloned().unwrap_or_default() {
            let x = json!([m["c"], m["i"]]);
            if !known.contains(&x) {
                known.push(x);
            }
        }
        let mut out = vec![];
        for x in known {
            let id = self.ccid(&x);
            if let Ok(v) = w.query("gateway", &json!({"get_messages": {"message_ids": [id]}})) {
                match self.c.abs_msgs(&v) {
                    Value::Array(a) => out.extend(a),
                    v => out.push(v),
                }
            }
        }
        json!({ "out": sorted_like(&want["out"], out) })
    }
}

/// Sets are printed by TLC in its own order: put what is there in the wanted order, anything else behind.
pub fn sorted_like(want: &Value, mut got: Vec<Value>) -> Value {
    let mut out = vec![];
    for x in want.as_array().cloned().unwrap_or_default() {
        if let Some(i) = got.iter().position(|g| *g == x) {
            out.push(got.remove(i));
        }
    }
    out.extend(got);
    json!(out)
}
