//! contracts/service-registry against spec/Registry.tla
use serde_json::{json, Map, Value};

use crate::concrete::Conc;
use crate::contracts;
use crate::engine::Module;
use crate::m::gateway::sorted_like;
use crate::m::rewards::{coins, scale, units, DENOM};
use crate::m::strings;
use crate::world::{World, TIME0};

pub struct M {
    c: Conc,
    svcs: Vec<String>,
    ws: Vec<String>,
    chains: Vec<String>,
    scale: u128,
}

/// The specification's unit of time, in nanoseconds.
const TICK: u64 = 500_000_000;

/// How many units each worker owns to begin with.
const RICH: u128 = 1_000_000;

fn amount(v: &Value, scale: u128) -> Value {
    match v.as_str().and_then(|x| x.parse().ok()) {
        Some(n) => units(n, scale),
        None => v.clone(),
    }
}

pub const DENOMS: [(&str, &str); 2] = [("rew", DENOM), ("other", "uother")];

fn register(name: &str, v: &Value, scale: u128) -> Value {
    let max = if v["max"] == json!(-1) { Value::Null } else { v["max"].clone() };
    let denom = DENOMS.iter().find(|d| v["denom"] == d.0).unwrap().1;
    json!({"register_service": {"service_name": name, "service_contract": format!("{name}-contract"), "min_num_workers": v["min"],
        "max_num_workers": max, "min_worker_bond": (v["bond"].as_u64().unwrap() as u128 * scale).to_string(), "bond_denom": denom,
        "unbonding_period_days": v["days"], "description": v["about"]}})
}

impl M {
    pub fn new(seed: u64) -> Self {
        M { c: Conc::new(seed), svcs: vec![], ws: vec![], chains: vec![], scale: 1 }
    }

    fn abs_worker(&self, v: &Value) -> Value {
        let b = &v["bonding_state"];
        let (state, n, at) = if b == "Unbonded" {
            ("unbonded", json!(0), json!(-1))
        } else if b["Bonded"].is_object() {
            ("bonded", amount(&b["Bonded"]["amount"], self.scale), json!(-1))
        } else if b["Unbonding"].is_object() {
            let ns: u64 = b["Unbonding"]["unbonded_at"].as_str().and_then(|x| x.parse().ok()).unwrap_or(0);
            let from = ns as i128 - TIME0 as i128 * 1_000_000_000;
            let at = if from % TICK as i128 == 0 { json!((from / TICK as i128) as i64) } else { json!(format!("{from} ns")) };
            ("unbonding", amount(&b["Unbonding"]["amount"], self.scale), at)
        } else {
            ("requested", amount(&b["RequestedUnbonding"]["amount"], self.scale), json!(-1))
        };
        json!({"b": state, "n": n, "at": at, "auth": v["authorization_state"] == "Authorized"})
    }
}

impl Module for M {
    fn build(&mut self, cfg: &Value) -> World {
        (self.svcs, self.ws, self.chains) = (strings(&cfg["svcs"]), strings(&cfg["ws"]), strings(&cfg["chains"]));
        self.scale = scale(cfg);
        let rich: Vec<(&str, &str, u128)> = self.ws.iter().flat_map(|w| DENOMS.iter().map(|d| (w.as_str(), d.1, RICH * self.scale))).collect();
        let mut w = World::new(&rich);
        w.add("registry", contracts::service_registry(), &json!({"governance_account": cfg["gov"]})).expect("registry");
        for (name, v) in cfg["pre"].as_object().cloned().unwrap_or_default() {
            w.exec(cfg["gov"].as_str().unwrap(), "registry", &register(&name, &v, self.scale), &[]).expect("service");
        }
        w
    }

    fn exec(&mut self, w: &mut World, q: &Value) -> Result<Value, String> {
        let svc = &q["svc"];
        let (msg, funds) = match q["t"].as_str().unwrap() {
            "Advance" => {
                let b = w.app.block_info();
                w.set_block_at(b.height + 1, b.time.plus_nanos(q["n"].as_u64().unwrap() * TICK));
                return Ok(json!([]));
            }
            "Register" => (register(svc.as_str().unwrap(), &q["is"], self.scale), vec![]),
            "Authorize" => (json!({"authorize_workers": {"workers": q["ws"], "service_name": svc}}), vec![]),
            "Unauthorize" => (json!({"unauthorize_workers": {"workers": q["ws"], "service_name": svc}}), vec![]),
            "Bond" => (json!({"bond_worker": {"service_name": svc}}), coins(&q["coins"], self.scale)),
            "Unbond" => (json!({"unbond_worker": {"service_name": svc}}), vec![]),
            "Claim" => (json!({"claim_stake": {"service_name": svc}}), vec![]),
            "Declare" => {
                let chains: Vec<String> = q["chains"].as_array().unwrap().iter().map(|c| self.c.chain(c)).collect();
                (json!({"declare_chain_support": {"service_name": svc, "chains": chains}}), vec![])
            }
            t => panic!("request {t}"),
        };
        w.exec(q["by"].as_str().unwrap(), "registry", &msg, &funds).map_err(|e| e.to_string())?;
        Ok(json!([]))
    }

    fn observe(&mut self, w: &mut World, want: &Value) -> Value {
        let (mut svc, mut wk, mut active) = (Map::new(), vec![], vec![]);
        for s in &self.svcs {
            if let Ok(v) = w.query("registry", &json!({"get_service": {"service_name": s}})) {
                let max = if v["max_num_workers"].is_null() { json!(-1) } else { v["max_num_workers"].clone() };
                let denom = DENOMS.iter().find(|d| v["bond_denom"] == d.1).map(|d| d.0);
                let mut x = json!({"min": v["min_num_workers"], "max": max, "bond": amount(&v["min_worker_bond"], self.scale),
                    "denom": denom, "days": v["unbonding_period_days"], "about": v["description"]});
                if v["name"] != json!(s) || v["service_contract"] != json!(format!("{s}-contract")) {
                    x["named"] = v["name"].clone();
                }
                svc.insert(s.clone(), x);
                for c in self.chains.clone() {
                    let name = self.c.chain(&json!(c));
                    let who = match w.query("registry", &json!({"get_active_workers": {"service_name": s, "chain_name": name}})) {
                        Ok(v) => {
                            let mut l: Vec<Value> = v.as_array().cloned().unwrap_or_default().iter().map(|x| x["address"].clone()).collect();
                            l.sort_by_key(|x| x.to_string());
                            json!(l)
                        }
                        Err(e) => json!(e.to_string()),
                    };
                    active.push(json!({"svc": s, "chain": c, "who": who}));
                }
            }
            for a in &self.ws {
                if let Ok(v) = w.query("registry", &json!({"get_worker": {"service_name": s, "worker": a}})) {
                    let mut x = json!({"svc": s, "who": a, "is": self.abs_worker(&v)});
                    if v["address"] != json!(a) || v["service_name"] != json!(s) {
                        x["named"] = json!([v["address"], v["service_name"]]);
                    }
                    wk.push(x);
                }
            }
        }
        let mut held = vec![];
        let mut spent = vec![];
        for (d, real) in DENOMS {
            let n = w.balance("registry", real);
            if n != 0 {
                held.push(json!({"k": d, "n": units(n, self.scale)}));
            }
            for a in &self.ws {
                let (had, has) = (RICH * self.scale, w.balance(a, real));
                if had != has {
                    let n = if has < had { units(had - has, self.scale) } else { json!(format!("-{}", has - had)) };
                    spent.push(json!({"k": [a, d], "n": n}));
                }
            }
        }
        json!({"svc": svc, "wk": sorted_like(&want["wk"], wk), "active": sorted_like(&want["active"], active),
            "held": sorted_like(&want["held"], held), "spent": sorted_like(&want["spent"], spent)})
    }
}
