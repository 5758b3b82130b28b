//! contracts/batching against spec/Batching.tla
use cosmwasm_std::{Binary, Env, Storage};
use serde_json::{json, Value};

use crate::contracts;
use crate::engine::Module;
use crate::m::rewards::DENOM;
use crate::world::{programmed, Peer, World};

#[derive(Default)]
pub struct M;

fn respond(q: &Value, s: &mut dyn Storage, _: &Env) -> anyhow::Result<Option<Value>> {
    let mut log = programmed(s, "log").as_array().cloned().unwrap_or_default();
    log.push(q["note"]["n"].clone());
    s.set(b"log", json!(log).to_string().as_bytes());
    if q["note"]["refuse"] == json!(true) {
        anyhow::bail!("refused");
    }
    Ok(None)
}

fn wasm(to: &str, msg: Value, amount: u64) -> Value {
    let funds = if amount == 0 { json!([]) } else { json!([{"denom": DENOM, "amount": amount.to_string()}]) };
    json!({"wasm": {"execute": {"contract_addr": to, "msg": Binary::from(msg.to_string().into_bytes()).to_base64(), "funds": funds}}})
}

fn calls(w: &World, l: &Value) -> Vec<Value> {
    let peer = w.addr("peer");
    l.as_array()
        .unwrap()
        .iter()
        .map(|c| {
            let n = c["n"].as_u64().unwrap_or(0);
            match c["k"].as_str().unwrap() {
                "call" => wasm(&peer, json!({"note": {"n": n}}), 0),
                "fund" => wasm(&peer, json!({"note": {"n": n}}), n),
                "bad" => wasm(&peer, json!({"note": {"n": n, "refuse": true}}), 0),
                "none" => wasm("nobody", json!({"note": {"n": n}}), 0),
                "send" => json!({"bank": {"send": {"to_address": "payee", "amount": [{"denom": DENOM, "amount": n.to_string()}]}}}),
                "nest" => wasm(&w.addr("batching"), batch(w, c), 0),
                k => panic!("call {k}"),
            }
        })
        .collect()
}

fn batch(w: &World, q: &Value) -> Value {
    json!({"batch": {"must_succeed_msgs": calls(w, &q["must"]), "can_fail_msgs": calls(w, &q["can"])}})
}

impl Module for M {
    fn build(&mut self, cfg: &Value) -> World {
        let bal = cfg["bal"].as_u64().unwrap() as u128;
        let mut w = World::new(&[("rich", DENOM, bal)]);
        w.add("peer", Box::new(Peer { answer: crate::world::no_answer, respond }), &json!({})).expect("peer");
        w.add("batching", contracts::batching(), &json!({})).expect("batching");
        if bal > 0 {
            // an empty batch that brings the contract's own money
            let msg = json!({"batch": {"must_succeed_msgs": [], "can_fail_msgs": []}});
            w.exec("rich", "batching", &msg, &[cosmwasm_std::coin(bal, DENOM)]).expect("funding");
        }
        w
    }

    fn exec(&mut self, w: &mut World, q: &Value) -> Result<Value, String> {
        let msg = batch(w, q);
        let o = w.exec("user", "batching", &msg, &[]).map_err(|e| e.to_string())?;
        let failed: Vec<Value> = o
            .events
            .iter()
            .filter(|e| e.ty == "wasm-failed_msg")
            .flat_map(|e| e.attributes.iter().filter(|a| !a.key.starts_with('_')).map(|a| json!(a.key.parse::<u64>().ok())).collect::<Vec<_>>())
            .collect();
        Ok(json!({ "failed": failed }))
    }

    fn observe(&mut self, w: &mut World, _: &Value) -> Value {
        let b = |who: &str| w.balance(who, DENOM) as u64;
        json!({"bal": b("batching"), "paid": b("payee"), "got": b("peer"), "log": w.peek("peer", "log").as_array().cloned().unwrap_or_default()})
    }
}
