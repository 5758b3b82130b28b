//! packages/axelar-wasm-std's thresholds, numbers, snapshots and polls against spec/Quorum.tla. The poll lives in the
//! world's storage as the library serializes it, as it does in the voting verifier's.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use axelar_wasm_std::nonempty;
use axelar_wasm_std::snapshot::{Participant, Snapshot};
use axelar_wasm_std::threshold::{MajorityThreshold, Threshold};
use axelar_wasm_std::voting::{PollId, PollStatus, Vote, WeightedPoll};
use cosmwasm_std::{Addr, Uint128, Uint256, Uint64};
use serde_json::{json, Value};

use crate::contracts;
use crate::engine::Module;
use crate::world::{World, HEIGHT0, TIME0};

const KEY: &[u8] = b"harness-poll";

pub struct M {
    deployable: BTreeMap<String, u64>,
    n: u64,
}

impl M {
    pub fn new(seed: u64) -> Self {
        M { deployable: BTreeMap::new(), n: seed }
    }
}

/// Decimal text of a number given as base-10000 digits, least first.
fn text(v: &Value) -> String {
    let d: Vec<u64> = v.as_array().map_or(vec![], |a| a.iter().map(|x| x.as_u64().expect("digit")).collect());
    let mut s = String::new();
    for x in d.iter().rev() {
        s += &format!("{x:04}");
    }
    let t = s.trim_start_matches('0');
    if t.is_empty() { "0".into() } else { t.into() }
}

fn digits(t: &str) -> Value {
    let b = t.as_bytes();
    let mut out: Vec<u64> = b.rchunks(4).map(|c| std::str::from_utf8(c).unwrap().parse().expect("number")).collect();
    while out.last() == Some(&0) {
        out.pop();
    }
    json!(out)
}

fn caught<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| Err("panic".into()))
}

/// All the ways of making one value must agree; disagreement shows as null.
fn agree(all: &[bool]) -> Value {
    match (all.iter().all(|x| *x), all.iter().any(|x| *x)) {
        (true, _) => json!(true),
        (_, false) => json!(false),
        _ => json!({ "ways disagree": all }),
    }
}

fn fraction(x: &Value) -> Value {
    json!([text(&x[0]), text(&x[1])])
}

fn number(kind: &str, v: &str) -> Value {
    let j = json!(v);
    let mut all = vec![];
    match kind {
        "u64" => {
            let r = serde_json::from_value::<nonempty::Uint64>(j.clone());
            if let Ok(x) = &r {
                all.push(serde_json::to_value(x).ok() == Some(j.clone()) && Uint64::from(*x).to_string() == v && u64::from(*x).to_string() == v);
            }
            all.push(r.is_ok());
            all.push(Uint64::try_from(v).map_or(false, |x| nonempty::Uint64::try_from(x).is_ok()));
            all.push(v.parse::<u64>().map_or(false, |x| nonempty::Uint64::try_from(x).is_ok()));
        }
        "u128" => {
            let r = serde_json::from_value::<nonempty::Uint128>(j.clone());
            if let Ok(x) = &r {
                all.push(serde_json::to_value(x).ok() == Some(j.clone()) && Uint128::from(*x).to_string() == v);
            }
            all.push(r.is_ok());
            let small = Uint128::try_from(v);
            all.push(small.as_ref().map_or(false, |x| nonempty::Uint128::try_from(*x).is_ok()));
            all.push(small.map_or(false, |x| nonempty::Uint256::try_from(x).map_or(false, |y| Uint256::from(y).to_string() == v)));
        }
        _ => {
            let r = serde_json::from_value::<nonempty::Uint256>(j.clone());
            if let Ok(x) = &r {
                all.push(serde_json::to_value(x).ok() == Some(j.clone()) && Uint256::from(*x).to_string() == v);
            }
            all.push(r.is_ok());
            all.push(Uint256::try_from(v).map_or(false, |x| nonempty::Uint256::try_from(x).is_ok()));
        }
    }
    agree(&all)
}

fn threshold(x: &Value) -> Option<Threshold> {
    serde_json::from_value(fraction(x)).ok()
}

fn small(x: &Value) -> Option<(u64, u64)> {
    Some((text(&x[0]).parse().ok()?, text(&x[1]).parse().ok()?))
}

fn majority(x: &Value) -> Option<MajorityThreshold> {
    serde_json::from_value(fraction(x)).ok()
}

fn fractions(x: &Value) -> (Value, Value) {
    let j = fraction(x);
    let t = threshold(x);
    let s = small(x);
    let mut a = vec![t.is_some()];
    a.push(s.map_or(false, |p| Threshold::try_from(p).is_ok()));
    a.push(s.map_or(false, |p| Threshold::try_from((Uint64::from(p.0), Uint64::from(p.1))).is_ok()));
    a.push(s.map_or(false, |p| match (nonempty::Uint64::try_from(p.0), nonempty::Uint64::try_from(p.1)) {
        (Ok(n), Ok(d)) => Threshold::try_from((n, d)).is_ok(),
        _ => false,
    }));
    if let Some(t) = t {
        a.push(serde_json::to_value(t).ok() == Some(j.clone()));
    }
    let m = majority(x);
    let mut b = vec![m.is_some(), t.map_or(false, |t| MajorityThreshold::try_from(t).is_ok())];
    if let Some(m) = m {
        b.push(serde_json::to_value(m).ok() == Some(j.clone()) && serde_json::to_value(Threshold::from(m)).ok() == Some(j));
    }
    (agree(&a), agree(&b))
}

fn votes(v: &Value) -> Vec<Vote> {
    super::strings(v)
        .iter()
        .map(|x| match x.as_str() {
            "S" => Vote::SucceededOnChain,
            "F" => Vote::FailedOnChain,
            _ => Vote::NotFound,
        })
        .collect()
}

fn load(w: &World) -> Option<WeightedPoll> {
    w.raw_get(KEY).map(|b| serde_json::from_slice(&b).expect("poll"))
}

fn save(w: &mut World, p: &WeightedPoll) {
    w.raw_set(KEY, &serde_json::to_vec(p).expect("poll"));
}

impl Module for M {
    fn build(&mut self, _: &Value) -> World {
        let mut w = World::new(&[]);
        for (n, c) in [("verifier", contracts::voting_verifier()), ("prover", contracts::prover()), ("rewards", contracts::rewards())] {
            let code = w.store(c);
            self.deployable.insert(n.into(), code);
        }
        w
    }

    fn exec(&mut self, w: &mut World, q: &Value) -> Result<Value, String> {
        let height = w.app.block_info().height;
        match q["t"].as_str().unwrap() {
            "Advance" => {
                let h = height + q["n"].as_u64().unwrap();
                w.set_block(h, TIME0 + h);
                Ok(json!([]))
            }
            "Number" => Ok(json!({"valid": number(q["kind"].as_str().unwrap(), &text(&q["v"]))})),
            "Fraction" => {
                let (v, m) = fractions(&q["x"]);
                Ok(json!({"valid": v, "majority": m}))
            }
            "Compare" => {
                let (a, b) = (threshold(&q["a"]).ok_or("invalid")?, threshold(&q["b"]).ok_or("invalid")?);
                use std::cmp::Ordering::*;
                let c = match a.partial_cmp(&b) {
                    Some(Less) => json!(-1),
                    Some(Equal) => json!(0),
                    Some(Greater) => json!(1),
                    None => json!("none"),
                };
                let ops = [a < b, a <= b, a > b, a >= b];
                let want = [c == json!(-1), c != json!(1), c == json!(1), c != json!(-1)];
                Ok(json!({"cmp": if ops == want { c } else { json!({"operators": ops}) }}))
            }
            "Deploy" => {
                let what = q["what"].as_str().unwrap();
                let x = fraction(&q["x"]);
                let init = match what {
                    "verifier" => json!({
                        "service_registry_address": "registry", "service_name": "service", "source_gateway_address": "gateway",
                        "voting_threshold": x, "block_expiry": 5, "confirmation_height": 1, "source_chain": "ethereum",
                        "rewards_address": "rewards",
                    }),
                    "prover" => json!({
                        "admin_address": "admin", "gateway_address": "gateway", "multisig_address": "multisig",
                        "service_registry_address": "registry", "voting_verifier_address": "verifier",
                        "destination_chain_id": "1", "signing_threshold": x, "service_name": "service",
                        "chain_name": "ethereum", "worker_set_diff_threshold": 0, "encoder": "abi", "key_type": "ecdsa",
                    }),
                    _ => json!({
                        "governance_address": "gov", "rewards_denom": "uaxl",
                        "params": {"epoch_duration": "10", "rewards_per_epoch": "10", "participation_threshold": x},
                    }),
                };
                w.deploy(self.deployable[what], &init).map(|_| json!([])).map_err(|e| e.to_string())
            }
            "Open" => {
                self.n += 1;
                let id = self.n;
                let p = caught(|| {
                    let thr = majority(&q["thr"]).ok_or("threshold")?;
                    let mut parts = vec![];
                    for x in q["parts"].as_array().unwrap() {
                        let weight = Uint256::try_from(text(&x["w"]).as_str()).map_err(|e| e.to_string())?;
                        parts.push(Participant {
                            address: Addr::unchecked(x["a"].as_str().unwrap()),
                            weight: weight.try_into().map_err(|e: nonempty::Error| e.to_string())?,
                        });
                    }
                    let parts = nonempty::Vec::try_from(parts).map_err(|e| e.to_string())?;
                    let s = Snapshot::new(thr, parts);
                    Ok(WeightedPoll::new(PollId::from(id), s, HEIGHT0 + q["exp"].as_u64().unwrap(), q["size"].as_u64().unwrap() as usize))
                })?;
                save(w, &p);
                Ok(json!([]))
            }
            "Vote" => {
                let p = load(w).ok_or("no poll")?;
                let p = caught(|| {
                    p.cast_vote(height, &Addr::unchecked(q["by"].as_str().unwrap()), votes(&q["votes"])).map_err(|e| e.to_string())
                })?;
                save(w, &p);
                Ok(json!([]))
            }
            "Finish" => {
                let p = load(w).ok_or("no poll")?;
                let p = caught(|| p.finish(height).map_err(|e| e.to_string()))?;
                save(w, &p);
                Ok(json!([]))
            }
            t => panic!("request {t}"),
        }
    }

    fn observe(&mut self, w: &mut World, _: &Value) -> Value {
        let Some(p) = load(w) else { return json!({"poll": {"none": true}}) };
        let st = p.state();
        let abs = |v: &Option<Vote>| match v {
            Some(Vote::SucceededOnChain) => "S",
            Some(Vote::FailedOnChain) => "F",
            Some(Vote::NotFound) => "N",
            None => "none",
        };
        let winners: Vec<&str> = st.results.iter().map(abs).collect();
        let single: Vec<&str> = (0..p.poll_size).map(|i| p.consensus(i as u32).map_or("error", |v| abs(&v))).collect();
        let winners = if single == winners && p.consensus(p.poll_size as u32).is_err() { json!(winners) } else { json!({"state": winners, "consensus": single}) };
        let weights: BTreeMap<String, Value> =
            p.participation.iter().map(|(a, x)| (a.clone(), digits(&Uint256::from(x.weight).to_string()))).collect();
        let mut good = st.consensus_participants.clone();
        good.sort();
        json!({"poll": {
            "quorum": digits(&Uint256::from(p.quorum).to_string()), "weights": weights, "winners": winners,
            "good": good, "done": p.status == PollStatus::Finished,
        }})
    }
}
