//! Replays the transitions TLC generated in the real contracts.
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::Arc;

use serde::Deserialize;
use serde_json::{json, Map, Value};

use crate::world::{Snapshot, World};

pub trait Module {
    /// Builds the initial world of a configuration.
    fn build(&mut self, cfg: &Value) -> World;
    /// Performs a request; Err when the code refuses it. The output is in the specification's terms.
    fn exec(&mut self, w: &mut World, q: &Value) -> Result<Value, String>;
    /// The observable state, in the specification's terms. `want` is what the specification says.
    fn observe(&mut self, w: &mut World, want: &Value) -> Value;
}

#[derive(Deserialize)]
struct Head {
    #[serde(default)]
    p: u64,
    #[serde(default)]
    n: u64,
    #[serde(default)]
    root: u64,
}

#[derive(Clone, Debug)]
pub struct Divergence {
    pub key: String,
    pub detail: String,
    pub file: String,
    pub node: u64,
    pub path: Vec<Value>,
}

#[derive(Default)]
pub struct Report {
    pub roots: u64,
    pub edges: u64,
    pub accepted: u64,
    pub refused: u64,
    pub states: u64,
    pub skipped: u64,
    pub traces: u64,
    pub max_depth: u64,
    pub kinds: BTreeMap<String, u64>,
    pub divergences: Vec<Divergence>,
    pub samples: Vec<Value>,
}

impl Report {
    pub fn merge(&mut self, o: Report) {
        self.roots += o.roots;
        self.edges += o.edges;
        self.accepted += o.accepted;
        self.refused += o.refused;
        self.states += o.states;
        self.skipped += o.skipped;
        self.traces += o.traces;
        self.max_depth = self.max_depth.max(o.max_depth);
        for (k, v) in o.kinds {
            *self.kinds.entry(k).or_default() += v;
        }
        self.divergences.extend(o.divergences);
        self.samples.extend(o.samples);
    }
}

pub struct TraceFile {
    pub name: String,
    /// (parent, node, line); parent 0 for roots
    lines: Vec<(u64, u64, String)>,
    index: HashMap<u64, usize>,
    internal: HashSet<u64>,
    depth: HashMap<u64, u32>,
    /// the child of a root that an inner node descends from
    top: HashMap<u64, u64>,
}

pub fn load(path: &str) -> TraceFile {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    let mut t = TraceFile {
        name: path.to_string(),
        lines: vec![],
        index: HashMap::new(),
        internal: HashSet::new(),
        depth: HashMap::new(),
        top: HashMap::new(),
    };
    let parsed: Vec<(Head, String)> = {
        let raw: Vec<&str> = text.lines().filter(|l| !l.is_empty()).collect();
        let chunk = raw.len() / threads() + 1;
        std::thread::scope(|s| {
            let hs: Vec<_> = raw
                .chunks(chunk)
                .map(|c| {
                    s.spawn(move || {
                        c.iter()
                            .map(|l| {
                                let l: String = if l.starts_with('"') {
                                    serde_json::from_str(l).unwrap_or_else(|e| panic!("{e}: {l}"))
                                } else {
                                    l.to_string()
                                };
                                let h: Head = serde_json::from_str(&l).unwrap_or_else(|e| panic!("{e}: {l}"));
                                (h, l)
                            })
                            .collect::<Vec<_>>()
                    })
                })
                .collect();
            hs.into_iter().flat_map(|h| h.join().expect("parse")).collect()
        })
    };
    for (h, l) in parsed {
        if h.root > 0 {
            t.index.insert(h.root, t.lines.len());
            t.depth.insert(h.root, 0);
            t.lines.push((0, h.root, l));
        } else {
            t.internal.insert(h.p);
            t.index.insert(h.n, t.lines.len());
            let d = t.depth[&h.p] + 1;
            t.depth.insert(h.n, d);
            let top = if d == 1 { h.n } else { t.top[&h.p] };
            t.top.insert(h.n, top);
            t.lines.push((h.p, h.n, l));
        }
    }
    t
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get())
}

impl TraceFile {
    pub fn path_to(&self, node: u64) -> Vec<Value> {
        let mut out = vec![];
        let mut n = node;
        loop {
            let (p, _, l) = &self.lines[self.index[&n]];
            out.push(serde_json::from_str(l).expect("line"));
            if *p == 0 {
                break;
            }
            n = *p;
        }
        out.reverse();
        out
    }
}

/// Runs a module's own code; its panics are answers of the contracts that it can make no sense of.
fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|p| {
        let text = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
        format!("unexpected answer: {}", text.unwrap_or_default())
    })
}

fn diff(path: &str, want: &Value, got: &Value, out: &mut Vec<(String, String)>) {
    match (want, got) {
        (Value::Object(a), Value::Object(b)) => {
            let keys: std::collections::BTreeSet<&String> = a.keys().chain(b.keys()).collect();
            for k in keys {
                let p = if path.is_empty() { k.clone() } else { format!("{path}.{k}") };
                diff(&p, a.get(k).unwrap_or(&Value::Null), b.get(k).unwrap_or(&Value::Null), out);
            }
        }
        _ if want == got => {}
        // lists of what the specification gives names to
        (Value::Array(a), Value::Array(b)) if a.len() == b.len() && ["proofs", "proof", "sessions"].iter().any(|n| path.ends_with(n)) && a.iter().chain(b).all(|x| x.is_object()) => {
            for (a, b) in a.iter().zip(b) {
                diff(path, a, b, out);
            }
        }
        _ => out.push((path.to_string(), format!("specification says {want}, the code says {got}"))),
    }
}

/// What is a set in the specification: TLC prints sets in its own order.
const SETS: [&str; 6] = ["good", "rewards", "active", "who", "part", "members"];

fn sorted(v: Value) -> Value {
    match v {
        Value::Array(mut a) => {
            a.sort_by_cached_key(|x| x.to_string());
            Value::Array(a)
        }
        Value::Object(m) => Value::Object(m.into_iter().map(|(k, v)| (k, if v.is_array() { sorted(v) } else { v })).collect()),
        v => v,
    }
}

/// An empty TLA+ function prints as an empty sequence; sets are put in one order.
pub fn norm(v: Value) -> Value {
    match v {
        Value::Object(m) if m.is_empty() => json!([]),
        Value::Object(m) => Value::Object(
            m.into_iter()
                .map(|(k, v)| {
                    let v = norm(v);
                    let v = if SETS.contains(&k.as_str()) { sorted(v) } else { v };
                    (k, v)
                })
                .collect::<Map<_, _>>(),
        ),
        Value::Array(a) => Value::Array(a.into_iter().map(norm).collect()),
        v => v,
    }
}

pub fn replay(make: &(dyn Fn() -> Box<dyn Module> + Sync), file: &TraceFile, sim: bool) -> Report {
    let n_threads = threads();
    let parts: Vec<Report> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n_threads)
            .map(|me| s.spawn(move || replay_part(make, file, sim, me as u64, n_threads as u64)))
            .collect();
        hs.into_iter().map(|h| h.join().expect("replay thread")).collect()
    });
    let mut r = Report::default();
    for p in parts {
        r.merge(p);
    }
    r
}

fn replay_part(
    make: &(dyn Fn() -> Box<dyn Module> + Sync),
    file: &TraceFile,
    sim: bool,
    me: u64,
    of: u64,
) -> Report {
    let mut rep = Report::default();
    // Exhaustive graphs: the edges leaving a node belong to one thread. Simulations: whole behaviours do.
    let mine = |p: u64, n: u64| {
        if p == 0 {
            me == 0
        } else if sim {
            file.top[&n] % of == me
        } else {
            p % of == me
        }
    };
    let mut needed: HashSet<u64> = HashSet::new();
    for (p, n, _) in &file.lines {
        if mine(*p, *n) {
            let mut x = *p;
            while x != 0 && needed.insert(x) {
                x = file.lines[file.index[&x]].0;
            }
        }
    }
    let mut worlds: HashMap<u64, (World, Box<dyn Module>)> = HashMap::new();
    let mut snaps: HashMap<u64, (u64, Snapshot, Arc<Value>)> = HashMap::new();
    let mut bad: HashSet<u64> = HashSet::new();
    for (p, n, line) in &file.lines {
        let own = mine(*p, *n);
        if !own && !needed.contains(n) {
            continue;
        }
        if bad.contains(p) {
            bad.insert(*n);
            if own {
                rep.skipped += 1;
            }
            continue;
        }
        let v: Value = serde_json::from_str(line).expect("line");
        let mut found: Vec<(String, String)> = vec![];
        let mut fatal = false;
        if *p == 0 {
            let mut m = make();
            let want = norm(v["obs"].clone());
            let built = guarded(|| {
                let mut w = m.build(&v["cfg"]);
                let got = norm(m.observe(&mut w, &v["obs"]));
                (w, got)
            });
            let mut d = vec![];
            let w = match built {
                Ok((w, got)) => {
                    diff("", &want, &got, &mut d);
                    Some(w)
                }
                Err(e) => {
                    d.push(("setup".to_string(), e));
                    None
                }
            };
            fatal |= !d.is_empty();
            found.extend(d.into_iter().map(|(k, t)| (format!("obs:Init:{k}"), t)));
            if let (Some(w), false) = (w, fatal) {
                let snap = w.snapshot();
                snaps.insert(*n, (*n, snap, Arc::new(want)));
                worlds.insert(*n, (w, m));
            }
            if own {
                rep.roots += 1;
            }
        } else {
            let Some((root, snap, pobs)) = snaps.get(p).cloned() else { continue };
            let (w, m) = worlds.get_mut(&root).expect("world");
            w.restore(&snap);
            let q = &v["q"];
            let t = q["t"].as_str().unwrap_or("?").to_string();
            let errs: Vec<String> =
                v["err"].as_array().map_or(vec![], |a| a.iter().map(|x| x.as_str().unwrap_or("?").to_string()).collect());
            let res = guarded(|| m.exec(w, q));
            if own {
                rep.edges += 1;
                rep.max_depth = rep.max_depth.max(file.depth[n] as u64);
                if errs.is_empty() {
                    *rep.kinds.entry(format!("{t}/ok")).or_default() += 1;
                } else {
                    for e in &errs {
                        *rep.kinds.entry(format!("{t}/{e}")).or_default() += 1;
                    }
                }
            }
            let mut obs = pobs.clone();
            match (errs.is_empty(), res) {
                (_, Err(e)) => {
                    fatal = true;
                    found.push((format!("out:{t}:panic"), e));
                }
                (false, Ok(Err(_))) => {
                    if own {
                        rep.refused += 1;
                    }
                }
                (false, Ok(Ok(out))) => {
                    fatal = true;
                    for e in &errs {
                        found.push((
                            format!("accept:{t}:{e}"),
                            format!("the specification refuses this request ({}), the code accepts it with {out}", errs.join(", ")),
                        ));
                    }
                }
                (true, Ok(Err(e))) => {
                    fatal = true;
                    found.push((format!("reject:{t}"), format!("the specification accepts this request, the code refuses it: {e}")));
                }
                (true, Ok(Ok(out))) => {
                    if own {
                        rep.accepted += 1;
                    }
                    let mut d = vec![];
                    diff("", &norm(v["out"].clone()), &norm(out), &mut d);
                    found.extend(d.into_iter().map(|(k, x)| (format!("out:{t}:{k}"), x)));
                    let want = norm(v["obs"].clone());
                    let mut d = vec![];
                    match guarded(|| m.observe(w, &v["obs"])) {
                        Ok(got) => diff("", &want, &norm(got), &mut d),
                        Err(e) => d.push(("panic".to_string(), e)),
                    }
                    fatal |= !d.is_empty();
                    found.extend(d.into_iter().map(|(k, x)| (format!("obs:{t}:{k}"), x)));
                    obs = Arc::new(want);
                }
            }
            if !fatal && file.internal.contains(n) && needed.contains(n) {
                if own {
                    rep.states += 1;
                }
                snaps.insert(*n, (root, w.snapshot(), obs));
            } else if !fatal && sim && own && !file.internal.contains(n) {
                rep.traces += 1;
            }
            if own && rep.samples.len() < 1 && file.depth[n] as u64 >= 3 && errs.is_empty() {
                rep.samples.push(json!({"steps": file.path_to(*n).iter().skip(1).map(|x| json!({"q": x["q"], "err": x["err"]})).collect::<Vec<_>>(), "out": v["out"], "obs": v["obs"]}));
            }
        }
        if fatal {
            bad.insert(*n);
        }
        if own && !found.is_empty() && rep.divergences.len() < 2000 {
            for (key, detail) in found {
                rep.divergences.push(Divergence { key, detail, file: file.name.clone(), node: *n, path: vec![] });
            }
        }
    }
    rep
}
