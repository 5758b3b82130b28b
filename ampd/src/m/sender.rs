//! The client of the Axelar node, and the commands of the command line.
use std::path::PathBuf;

use ampd::entry::{account_of, broadcast_config, config, run_command, Command, Sender as Real, Setup};
use serde_json::{json, Value};
use tokio::runtime::Runtime;

use super::{runtime, Part};
use crate::m::witness::{account, key, num};

pub struct Sender {
    pub seed: u64,
}

pub struct Live {
    real: Real,
    rt: Runtime,
    cfg: Value,
    dir: PathBuf,
    seen: usize,
    n: u64,
}

impl Drop for Live {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

fn ratio(v: &Value) -> f64 {
    num(&v[0]) as f64 / num(&v[1]) as f64
}

fn broadcast(cfg: &Value) -> Value {
    json!({"chain_id": "axelar-test-7", "tx_fetch_interval": "1us", "tx_fetch_max_retries": cfg["retries"], "gas_adjustment": ratio(&cfg["adj"]),
        "gas_price": format!("{}uaxl", ratio(&cfg["price"])), "batch_gas_limit": 1_000_000, "queue_cap": 1000, "broadcast_interval": "5s"})
}

impl Live {
    fn owner(&self) -> &'static str {
        if self.cfg["key"] == "k2" { "k2" } else { "k1" }
    }

    /// The troubles of a request.
    fn trouble(&mut self, q: &Value) {
        sim::with(|s| {
            s.estimate_fails = q["how"] == "down";
            s.estimates_nothing = q["how"] == "none";
            s.locked = q["sign"] == false;
            s.broadcast_fails = q["take"] == "down";
            s.says_nothing = q["take"] == "none";
            s.lag = q["lag"].as_u64().unwrap_or(0);
            s.code = q["code"].as_u64().unwrap_or(0) as u32;
            s.polls = 0;
            s.pending = None;
        })
    }

    /// Names of the messages that the request has gas for, and the batch: these names, as it lists them.
    fn names(&mut self, q: &Value) -> (Vec<String>, Vec<String>) {
        let gas: Vec<u64> = q["gas"].as_array().expect("gas").iter().map(num).collect();
        self.n += 1;
        let names: Vec<String> = sim::with(|s| {
            s.gas.clear();
            gas.iter()
                .enumerate()
                .map(|(i, g)| {
                    let name = format!("x{}-{}x", self.n, i + 1);
                    s.gas.insert(name.clone(), *g);
                    name
                })
                .collect()
        });
        let batch = q["list"].as_array().expect("list").iter().map(|i| names[num(i) as usize - 1].clone()).collect();
        (names, batch)
    }

    /// What was included since the last time; its hashes.
    fn included(&mut self, msgs: impl Fn(&Value) -> Value) -> (Vec<Value>, Vec<String>) {
        let (new, refused) = sim::with(|s| (s.included[self.seen..].to_vec(), s.refused.clone()));
        assert!(refused.is_empty(), "refused: {refused:?}");
        self.seen += new.len();
        let hashes = new.iter().map(|x| x["hash"].as_str().expect("hash").to_string()).collect();
        let new = new
            .iter()
            .map(|x| {
                assert_eq!((&x["denom"], &x["memo"], &x["timeout"]), (&json!(["uaxl"]), &json!(""), &json!(0)));
                let fee: u64 = x["fee"][0].as_str().and_then(|f| f.parse().ok()).expect("fee");
                json!({ "seq": x["seq"], "gas": x["gas"], "fee": fee, "msgs": x["msgs"].as_array().expect("messages").iter().map(&msgs).collect::<Vec<_>>() })
            })
            .collect();
        (new, hashes)
    }

    fn polls(&self) -> u64 {
        sim::with(|s| s.polls)
    }
}

impl Part for Sender {
    type Live = Live;

    fn start(&self, cfg: &Value) -> Live {
        use std::sync::atomic::{AtomicU64, Ordering};
        static COUNT: AtomicU64 = AtomicU64::new(0);
        let n = COUNT.fetch_add(1, Ordering::Relaxed);
        let dir = std::env::temp_dir().join(format!("ampd-check-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&dir).expect("scratch directory");
        sim::with(|s| {
            s.keys = ["k1", "k2"].iter().map(|k| key(k).to_bytes().into()).collect();
            s.owner = usize::from(cfg["key"] == "k2");
            s.chain_id = "axelar-test-7".into();
            s.account.number = num(&cfg["num"]);
            s.account.sequence = num(&cfg["seq"]);
            s.jitter = self.seed * 131 + 7;
        });
        if cfg["key"] != "" {
            let k = hex::encode(key(cfg["key"].as_str().expect("key")).verifying_key().to_encoded_point(true).as_bytes());
            std::fs::write(dir.join("state.json"), json!({ "handlers": {}, "pub_key": k }).to_string()).expect("state file");
        }
        let real = Real::new(broadcast_config(broadcast(cfg)).expect("configuration"));
        Live { real, rt: runtime(self.seed), cfg: cfg.clone(), dir, seen: 0, n: 0 }
    }

    fn exec(&self, l: &mut Live, q: &Value) -> Value {
        match q["t"].as_str().expect("request") {
            "Account" => {
                sim::with(|s| s.account.answer = if q["x"] == "ok" { String::new() } else { q["x"].as_str().expect("answer").to_string() });
                json!([])
            }
            "Other" => {
                sim::with(|s| s.account.sequence += 1);
                json!([])
            }
            "Connect" => {
                let r = l.rt.block_on(l.real.connect());
                let me = account_of(key(l.owner()).verifying_key());
                sim::with(|s| assert_eq!(s.asked.last(), Some(&me)));
                json!({ "r": r.err().unwrap_or_else(|| "ok".into()) })
            }
            "Est" => {
                l.trouble(q);
                let (_, batch) = l.names(q);
                match l.rt.block_on(l.real.estimate(&batch)) {
                    Err(e) => json!({ "r": e, "gas": 0, "fee": 0 }),
                    Ok((fee, gas)) => {
                        assert!(fee.len() == 1 && fee[0].1 == "uaxl", "fee: {fee:?}");
                        json!({ "r": "ok", "gas": gas, "fee": fee[0].0 as u64 })
                    }
                }
            }
            "Send" => {
                l.trouble(q);
                let (names, batch) = l.names(q);
                let r = l.rt.block_on(l.real.send(&batch));
                let number = |m: &Value| {
                    let at = names.iter().position(|n| m["msg"]["m"] == json!(n));
                    json!(at.map_or(0, |i| i + 1))
                };
                let (got, hashes) = l.included(number);
                if let Ok(h) = &r {
                    assert!(hashes.last() == Some(h), "the hash is of another transaction");
                }
                json!({ "r": r.err().unwrap_or("ok"), "got": got, "polls": l.polls() })
            }
            "Cmd" => {
                l.trouble(q);
                sim::with(|s| s.gas = [("{".to_string(), num(&q["gas"]))].into());
                let c = &q["c"];
                let text = |k: &str| c[k].as_str().expect("text").to_string();
                let command = match c["t"].as_str().expect("command") {
                    "Bond" => Command::Bond { service: text("svc"), amount: num(&c["n"]).into(), denom: text("d") },
                    "Declare" => Command::Declare { service: text("svc"), chains: serde_json::from_value(c["chains"].clone()).expect("chains") },
                    "Register" => Command::Register,
                    "Address" => Command::Address,
                    t => panic!("command {t}"),
                };
                let handlers = if l.cfg["signer"] == true { vec!["messages".to_string(), "signer".into()] } else { vec!["messages".to_string()] };
                let (ver, mul, reg) = (account("ver"), account("mul"), account("reg"));
                let setup = Setup { handlers: &handlers, verifier: &ver, multisig: &mul, registry: &reg, chain: "ethereum", broadcast: broadcast(&l.cfg) };
                let r = l.rt.block_on(run_command(command, config(setup), &l.dir.join("state.json")));
                let me = account_of(key(l.owner()).verifying_key());
                let mine = hex::encode(key(l.owner()).verifying_key().to_encoded_point(true).as_bytes());
                let message = |m: &Value| {
                    assert_eq!(m["sender"], json!(me));
                    let to = [("mul", &mul), ("reg", &reg), ("ver", &ver)].iter().find(|x| m["contract"] == json!(x.1)).map_or("?", |x| x.0);
                    let funds: Vec<Value> = m["funds"]
                        .as_array()
                        .expect("funds")
                        .iter()
                        .map(|f| json!({ "n": f[0].as_str().and_then(|n| n.parse::<u64>().ok()), "d": f[1] }))
                        .collect();
                    let msg = if let Ok(m) = serde_json::from_value::<service_registry::msg::ExecuteMsg>(m["msg"].clone()) {
                        use service_registry::msg::ExecuteMsg::*;
                        match m {
                            BondWorker { service_name } => json!({ "t": "Bond", "svc": service_name }),
                            DeclareChainSupport { service_name, chains } => json!({ "t": "Declare", "svc": service_name,
                                "chains": chains.iter().map(|c| c.to_string()).collect::<Vec<_>>() }),
                            m => json!({ "t": format!("{m:?}") }),
                        }
                    } else {
                        match serde_json::from_value::<multisig::msg::ExecuteMsg>(m["msg"].clone()) {
                            Ok(multisig::msg::ExecuteMsg::RegisterPublicKey { public_key: multisig::key::PublicKey::Ecdsa(k) }) => {
                                json!({ "t": "Register", "mine": k.to_hex() == mine })
                            }
                            x => json!({ "t": format!("{x:?}") }),
                        }
                    };
                    json!({ "to": to, "msg": msg, "funds": funds })
                };
                let (got, hashes) = l.included(message);
                if let Ok(said) = &r {
                    let said = said.as_deref().unwrap_or("");
                    let expected = if c["t"] == "Address" { Some(&me) } else { hashes.last() };
                    assert!(expected.map_or(false, |x| said.contains(x.as_str())), "it says {said:?}");
                }
                json!({ "r": if r.is_ok() { "ok" } else { "err" }, "got": got })
            }
            t => panic!("request {t}"),
        }
    }

    fn observe(&self, _: &mut Live) -> Value {
        sim::with(|s| json!({ "seq": s.account.sequence, "keygens": s.keygens }))
    }
}
