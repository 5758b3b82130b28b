//! contracts/rewards against spec/Rewards.tla
use cosmwasm_std::Coin;
use serde_json::{json, Map, Value};

use crate::concrete::keccak;
use crate::contracts;
use crate::engine::Module;
use crate::m::multisig::{advance, wide};
use crate::m::strings;
use crate::world::{Peer, World};

pub struct M {
    workers: Vec<String>,
    seed: u64,
    scale: u128,
}

pub const DENOM: &str = "uaxl";

fn denom(d: &str) -> String {
    if d == "rew" { DENOM.into() } else { format!("u{d}") }
}

/// Amounts of the specification are counted in units of this many coins.
pub fn scale(cfg: &Value) -> u128 {
    cfg["scale"].as_str().map_or(1, |x| x.parse().expect("scale"))
}

/// An amount in the specification's units; amounts that are no whole number of them are not to be found there.
pub fn units(n: u128, scale: u128) -> Value {
    if n % scale == 0 && n / scale <= u64::MAX as u128 {
        json!((n / scale) as u64)
    } else {
        json!(format!("{n} / {scale}"))
    }
}

pub fn coins(v: &Value, scale: u128) -> Vec<Coin> {
    v.as_array()
        .expect("coins")
        .iter()
        .map(|c| Coin { denom: denom(c["d"].as_str().unwrap()), amount: (c["n"].as_u64().unwrap() as u128 * scale).into() })
        .collect()
}

impl M {
    pub fn new(seed: u64) -> Self {
        M { workers: vec![], seed, scale: 1 }
    }
    fn params(&self, p: &Value) -> Value {
        // the largest number stands for the largest there is; fractions need not be in lowest terms
        let f = 1 + u64::from(keccak(&[&self.seed.to_be_bytes(), p.to_string().as_bytes()])[0] % 5);
        let n = |k: &str| (p[k].as_u64().unwrap() * f).to_string();
        json!({"epoch_duration": wide(&p["dur"]).to_string(), "rewards_per_epoch": (p["rew"].as_u64().unwrap() as u128 * self.scale).to_string(),
            "participation_threshold": [n("num"), n("den")]})
    }
}

impl Module for M {
    fn build(&mut self, cfg: &Value) -> World {
        self.scale = scale(cfg);
        let much = 1_000_000_000 * self.scale;
        let mut w = World::new(&[("rich", DENOM, much), ("rich", "uother", much)]);
        self.workers = strings(&cfg["workers"]);
        for p in strings(&cfg["pools"]) {
            w.add(&p, Peer::silent(), &json!({})).expect("pool");
        }
        let init = json!({"governance_address": cfg["gov"], "rewards_denom": DENOM, "params": self.params(&cfg["par"])});
        w.add("rewards", contracts::rewards(), &init).expect("rewards");
        w
    }

    fn exec(&mut self, w: &mut World, q: &Value) -> Result<Value, String> {
        let by = w.addr(q["by"].as_str().unwrap_or("user"));
        let pool = q["pool"].as_str().map(|p| w.addr(p));
        let (msg, funds) = match q["t"].as_str().unwrap() {
            "Advance" => {
                advance(w, q["n"].as_u64().unwrap());
                return Ok(json!([]));
            }
            "Record" => (json!({"record_participation": {"event_id": q["event"], "worker_address": q["who"]}}), vec![]),
            "Add" => (json!({"add_rewards": {"contract_address": pool}}), coins(&q["coins"], self.scale)),
            "Distribute" => {
                let n = if q["limit"] == json!(-1) { Value::Null } else { json!(wide(&q["limit"])) };
                (json!({"distribute_rewards": {"contract_address": pool, "epoch_count": n}}), vec![])
            }
            "Params" => (json!({"update_params": {"params": self.params(&q["par"])}}), vec![]),
            t => panic!("request {t}"),
        };
        let before: Vec<u128> = self.workers.iter().map(|a| w.balance(a, DENOM)).collect();
        w.exec(&by, "rewards", &msg, &funds).map_err(|e| e.to_string())?;
        if q["t"] == "Distribute" {
            let mut pay = Map::new();
            for (a, b) in self.workers.iter().zip(before) {
                let now = w.balance(a, DENOM);
                if now > b {
                    pay.insert(a.clone(), units(now - b, self.scale));
                } else if now < b {
                    pay.insert(a.clone(), json!(format!("-{}", b - now)));
                }
            }
            return Ok(json!({ "pay": pay }));
        }
        Ok(json!([]))
    }

    fn observe(&mut self, w: &mut World, _: &Value) -> Value {
        let mut paid = Map::new();
        for a in &self.workers {
            let n = w.balance(a, DENOM);
            if n != 0 {
                paid.insert(a.clone(), units(n, self.scale));
            }
        }
        let mut o = json!({"held": units(w.balance("rewards", DENOM), self.scale), "paid": paid});
        if w.balance("rewards", "uother") != 0 {
            o["swallowed"] = units(w.balance("rewards", "uother"), self.scale);
        }
        o
    }
}
