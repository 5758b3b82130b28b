//! The queue in front of the broadcaster, in paused time.
use std::time::Duration;

use ampd::entry::Queue as Real;
use serde_json::{json, Value};
use tokio::runtime::Runtime;

use super::{runtime, Part};
use crate::m::witness::num;

const PERIOD: u64 = 4007;

pub struct Queue {
    pub seed: u64,
}

pub struct Live {
    queue: Real,
    n: u64,
    ended: Option<bool>,
    seen: usize,
    rt: Runtime,
}

/// Lets everything that can happen without time passing happen.
pub async fn settle() {
    for _ in 0..400 {
        tokio::task::yield_now().await;
    }
}

impl Live {
    fn out(&mut self) -> Value {
        if self.ended.is_none() {
            self.ended = self.rt.block_on(self.queue.ended());
        }
        let batches: Vec<Vec<u64>> = sim::with(|s| {
            s.txs[self.seen..]
                .iter()
                .map(|b| b.iter().map(|m| m["msg"]["m"].as_str().and_then(|x| x.trim_matches('x').parse().ok()).unwrap_or(0)).collect())
                .collect()
        });
        self.seen += batches.len();
        json!({ "batches": batches, "ended": self.said() })
    }

    fn said(&self) -> &'static str {
        match self.ended {
            None => "",
            Some(true) => "ok",
            Some(false) => "err",
        }
    }
}

impl Part for Queue {
    type Live = Live;

    fn start(&self, cfg: &Value) -> Live {
        let rt = runtime(self.seed);
        sim::with(|s| s.jitter = self.seed * 31 + 5);
        let queue = rt.block_on(async {
            let q = Real::start(4, num(&cfg["limit"]), num(&cfg["cap"]) as usize, Duration::from_millis(PERIOD));
            settle().await;
            q
        });
        Live { queue, n: 0, ended: None, seen: 0, rt }
    }

    fn exec(&self, l: &mut Live, q: &Value) -> Value {
        match q["t"].as_str().expect("request") {
            "Push" => {
                let gas: Vec<u64> = q["gas"].as_array().expect("gas").iter().map(num).collect();
                let was = l.ended.is_some();
                let accepted = l.rt.block_on(async {
                    let mut accepted = 0;
                    for g in gas {
                        l.n += 1;
                        let name = format!("x{}x", l.n);
                        sim::with(|s| s.gas.insert(name.clone(), g));
                        accepted += u64::from(l.queue.push(num(&q["c"]) as usize, &name).await);
                    }
                    settle().await;
                    accepted
                });
                assert!(!was || accepted == 0, "a message is accepted after the end");
                l.out()
            }
            "Wait" => {
                let d = num(&q["d"]);
                l.rt.block_on(async {
                    tokio::time::sleep(Duration::from_secs(d)).await;
                    settle().await;
                });
                l.out()
            }
            "Force" => {
                l.rt.block_on(async {
                    l.queue.force().await;
                    settle().await;
                });
                l.out()
            }
            "Close" => {
                l.queue.close();
                l.rt.block_on(settle());
                l.out()
            }
            "Refuse" => {
                sim::with(|s| s.broadcast_fails = q["x"] == true);
                l.out()
            }
            "Unprice" => {
                sim::with(|s| s.estimate_fails = q["x"] == true);
                l.out()
            }
            t => panic!("request {t}"),
        }
    }

    fn observe(&self, l: &mut Live) -> Value {
        json!({ "ended": l.said() })
    }
}
