//! The whole daemon on a simulated Axelar node, in paused time, with its state file in a scratch directory.
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::time::Duration;

use ampd::entry::{account_of, run_daemon, Setup};
use serde_json::{json, Value};
use tokio::runtime::Runtime;
use tokio::task::JoinHandle;

use super::queue::settle;
use super::witness::{account, answers, key, num, Names};
use super::{runtime, Part};

const ALL: [(&str, &str); 3] = [("messages", "ethereum-msg-verifier"), ("sets", "ethereum-worker-set-verifier"), ("signer", "multisig-signer")];
/// messages are broadcast this often, in milliseconds
const PERIOD: u64 = 200_000;

pub struct Daemon {
    pub seed: u64,
}

struct Running {
    task: JoinHandle<bool>,
    handlers: Vec<String>,
    rt: Runtime,
    /// how long it has been running
    age: u64,
}

pub struct Live {
    names: Names,
    dir: PathBuf,
    run: Option<Running>,
    seen: usize,
    seed: u64,
    /// what handler each event concerns
    concerns: Vec<Vec<String>>,
}

impl Drop for Live {
    fn drop(&mut self) {
        self.run = None;
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

fn texts(e: cosmwasm_std::Event, by: &str) -> (String, Vec<(String, String)>) {
    let me = account_of(key("k1").verifying_key());
    let mut attributes = vec![("_contract_address".to_string(), account(by))];
    attributes.extend(e.attributes.into_iter().map(|a| (a.key, a.value.replace(&account("w1"), &me))));
    (format!("wasm-{}", e.ty), attributes)
}

impl Live {
    fn state(&self) -> PathBuf {
        self.dir.join("state.json")
    }

    fn file(&self) -> (BTreeMap<String, u64>, bool) {
        let text = std::fs::read_to_string(self.state()).unwrap_or_else(|_| "{}".into());
        let v: Value = serde_json::from_str(&text).expect("state file");
        let mut heights = BTreeMap::new();
        for (h, n) in v["handlers"].as_object().into_iter().flatten() {
            let name = ALL.iter().find(|x| h.eq_ignore_ascii_case(x.1)).map_or(h.as_str(), |x| x.0);
            let n = n.as_str().and_then(|x| x.parse().ok()).or(n.as_u64()).expect("height");
            heights.insert(name.to_string(), n);
        }
        (heights, !v["pub_key"].is_null())
    }

    fn event(&self, handler: &str, n: u64, exp: u64) -> (String, Vec<(String, String)>) {
        let q = json!({"poll": n, "chain": "ethereum", "gw": "g1", "conf": 1, "exp": if handler == "late" { exp } else { 2147483647 }, "part": ["w1", "w2"], "form": "good",
            "msgs": [{"tx": 1, "ix": 0, "c": {"src": 1, "dst": "b", "da": 1, "ph": 1}}], "tx": 1, "ix": 0, "ops": "o1",
            "session": n, "v": 1, "keys": {"w1": "k1", "w2": "k2"}});
        match handler {
            "messages" | "late" => texts(self.names.messages_poll(&q), "ver"),
            "sets" => texts(self.names.set_poll(&q), "ver"),
            "signer" => texts(self.names.signing(&q), "mul"),
            h => panic!("handler {h}"),
        }
    }

    fn launch(&mut self, handlers: Vec<String>) {
        tokio::signal::forget();
        let rt = runtime(self.seed);
        let (hs, path) = (handlers.clone(), self.state());
        let task = rt.spawn(async move {
            let s = Setup {
                handlers: &hs,
                verifier: &account("ver"),
                multisig: &account("mul"),
                registry: &account("reg"),
                chain: "Ethereum",
                broadcast: json!({"chain_id": "axelar-dojo-1", "tx_fetch_interval": "1us", "tx_fetch_max_retries": 10, "gas_adjustment": 1.5,
                    "gas_price": "0.25uaxl", "batch_gas_limit": 1_000_000_000, "queue_cap": 1000, "broadcast_interval": format!("{PERIOD}ms")}),
            };
            run_daemon(s, &path).await
        });
        self.run = Some(Running { task, handlers, rt, age: 0 });
    }

    /// Some time passes; how the daemon ended if it did.
    fn pass(&mut self, millis: u64) -> &'static str {
        let Some(r) = &mut self.run else { return "" };
        r.age += millis;
        let ended = r.rt.block_on(async {
            tokio::time::sleep(Duration::from_millis(millis)).await;
            settle().await;
            match r.task.is_finished() {
                true => Some((&mut r.task).await),
                false => None,
            }
        });
        match ended {
            None => return "",
            Some(x) => {
                self.run = None;
                match x {
                    Ok(true) => "ok",
                    Ok(false) => "err",
                    Err(_) => "panic",
                }
            }
        }
    }

    /// Until shortly after the next broadcast.
    fn pass_period(&mut self) -> &'static str {
        let age = self.run.as_ref().map_or(0, |r| r.age);
        self.pass(PERIOD - age % PERIOD + 1100)
    }

    fn catch_up(&mut self) -> &'static str {
        match self.pass(1100) {
            "" => self.pass_period(),
            a => a,
        }
    }

    fn stop(&mut self, signal: i32) -> &'static str {
        tokio::signal::raise(signal);
        self.pass(20)
    }

    /// What was broadcast since the last time, by handler.
    fn sent(&mut self) -> BTreeMap<&'static str, Vec<u64>> {
        let mut out: BTreeMap<_, Vec<u64>> = ALL.iter().map(|x| (x.0, vec![])).collect();
        let me = account_of(key("k1").verifying_key());
        let txs = sim::with(|s| s.txs[self.seen..].to_vec());
        self.seen += txs.len();
        sim::with(|s| assert!(s.refused.is_empty(), "refused: {:?}", s.refused));
        for m in txs.iter().flatten() {
            assert_eq!(m["sender"], json!(me), "sender");
            let (kind, n) = match m["msg"].as_object().and_then(|x| x.iter().next()) {
                Some((k, v)) if k == "vote" => ("vote", &v["poll_id"]),
                Some((k, v)) if k == "submit_signature" => ("signer", &v["session_id"]),
                _ => panic!("message {m}"),
            };
            let n: u64 = n.as_str().and_then(|x| x.parse().ok()).expect("number");
            let handler = match kind {
                "signer" => "signer",
                _ if self.concerns.get(n as usize / 10).and_then(|b| b.get(n as usize % 10 - 1)).map_or(false, |h| h == "sets") => "sets",
                _ => "messages",
            };
            out.get_mut(handler).expect("handler").push(n);
        }
        out
    }

    /// Something happens when block k is looked at.
    fn trouble(&mut self, kind: &str, k: u64) -> Value {
        let handlers = self.run.as_ref().expect("running").handlers.clone();
        let before = self.file().0;
        match kind {
            "signal" => sim::with(|s| s.raise_at = Some((k, if self.seed % 2 == 0 { 15 } else { 2 }))),
            "broken" => sim::with(|s| {
                s.broken.insert(k);
            }),
            "fail" => sim::with(|s| s.fail_at = Some(k)),
            "crash" => sim::with(|s| s.crash_at = Some(k)),
            t => panic!("trouble {t}"),
        }
        let end = match kind {
            "crash" => {
                self.pass(5000);
                assert!(sim::with(|s| s.crashed), "block {k} is not looked at");
                self.run = None;
                self.sent();
                ""
            }
            _ => match self.pass(5000) {
                "" => "still on",
                // with its last handler the other tasks end too, and any of them may be seen to end first
                "ok" if kind == "fail" => "err",
                e => e,
            },
        };
        self.run = None;
        sim::with(|s| {
            s.raise_at = None;
            s.fail_at = None;
            s.crash_at = None;
            s.crashed = false;
            s.sign_fails = false;
            s.broken.clear();
        });
        // what is persisted is done, and what is done is persisted
        let first = self.sent();
        let (after, _) = self.file();
        let tip = sim::with(|s| s.tip);
        for h in &handlers {
            let (a, b) = (before.get(h).copied().unwrap_or(0), after.get(h).copied().unwrap_or(0));
            assert!(b >= a && b <= tip || b == a, "{h} persisted block {b} after block {a}");
            let late = first[h.as_str()].iter().find(|n| **n / 10 > b + 1);
            assert!(kind == "crash" || late.is_none(), "{h} answered {late:?} and persisted block {b}");
        }
        self.launch(handlers);
        let second = self.catch_up();
        let sent = self.sent();
        let stopped = if self.run.is_some() { self.stop(15) } else { "" };
        assert!(second.is_empty() && stopped == "ok", "after {kind} it is started again: {second:?}, stopped: {stopped:?}");
        self.run = None;
        let all: BTreeMap<_, Vec<u64>> = sent.iter().map(|(h, x)| (*h, first[h].iter().chain(x).copied().collect())).collect();
        json!({ "sent": all, "end": end })
    }
}

impl Part for Daemon {
    type Live = Live;

    fn start(&self, _: &Value) -> Live {
        use std::sync::atomic::{AtomicU64, Ordering};
        static COUNT: AtomicU64 = AtomicU64::new(0);
        let n = COUNT.fetch_add(1, Ordering::Relaxed);
        let dir = std::env::temp_dir().join(format!("ampd-check-{}-{n}", std::process::id()));
        let names = Names { seed: self.seed, sui: false };
        answers(&names, &[json!(1)], &BTreeMap::new(), 10, 10, "ok");
        sim::with(|s| {
            s.keys = ["k1", "k2"].iter().map(|k| key(k).to_bytes().into()).collect();
            s.blocks = vec![vec![]];
            s.tip = 1;
            s.chain_id = "axelar-dojo-1".into();
            s.account.number = 9;
            s.account.sequence = 4;
            s.jitter = self.seed * 7919 + 1;
        });
        Live { names, dir, run: None, seen: 0, seed: self.seed, concerns: vec![vec![], vec![]] }
    }

    fn exec(&self, l: &mut Live, q: &Value) -> Value {
        let answer = |l: &mut Live, end: &str| json!({ "sent": l.sent(), "end": end });
        match q["t"].as_str().expect("request") {
            "Block" => {
                let hs: Vec<String> = q["ev"].as_array().expect("events").iter().map(|x| x.as_str().expect("handler").to_string()).collect();
                let b = l.concerns.len() as u64;
                let es = hs.iter().enumerate().map(|(i, h)| l.event(h, b * 10 + i as u64 + 1, num(&q["exp"]))).collect();
                l.concerns.push(hs);
                sim::with(|s| s.blocks.push(es));
                json!([])
            }
            "Tip" => {
                sim::with(|s| s.tip = num(&q["n"]));
                json!([])
            }
            "Down" => {
                sim::with(|s| s.down = q["x"] == true);
                json!([])
            }
            "Refuse" => {
                sim::with(|s| s.broadcast_fails = q["x"] == true);
                json!([])
            }
            "Start" => {
                let hs: BTreeSet<String> = serde_json::from_value(q["hs"].clone()).expect("handlers");
                let mut hs: Vec<String> = hs.into_iter().collect();
                if self.seed % 2 == 1 {
                    hs.reverse();
                }
                l.launch(hs);
                let end = l.catch_up();
                answer(l, end)
            }
            "Wait" => {
                let mut end = l.pass(5000);
                if q["long"] == true && end.is_empty() {
                    end = l.pass_period();
                }
                answer(l, end)
            }
            "Stop" => {
                let end = l.stop(if self.seed % 2 == 0 { 2 } else { 15 });
                answer(l, end)
            }
            "Crash" => {
                l.run = None;
                l.sent();
                json!([])
            }
            "Trouble" => l.trouble(q["kind"].as_str().expect("kind"), num(&q["k"])),
            t => panic!("request {t}"),
        }
    }

    fn observe(&self, l: &mut Live) -> Value {
        let (file, key) = l.file();
        let file: BTreeMap<_, u64> = ALL.iter().map(|x| (x.0, file.get(x.0).copied().unwrap_or(0))).collect();
        json!({ "on": l.run.is_some(), "file": file, "key": key, "keygens": sim::with(|s| s.keygens) })
    }
}
