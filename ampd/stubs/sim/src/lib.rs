//! The world around the daemon: what its stub clients talk to. One per thread.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

use serde_json::Value;

#[derive(Clone, Default)]
pub struct Account {
    pub number: u64,
    pub sequence: u64,
    /// "" | "down" | "unknown" | "none" | "bad"
    pub answer: String,
}

#[derive(Clone, Default)]
pub struct Sim {
    /// the Axelar chain: events (type and attributes) of the blocks from 1 on
    pub blocks: Vec<Vec<(String, Vec<(String, String)>)>>,
    /// the height that the node reports
    pub tip: u64,
    /// blocks that the node fails to serve
    pub broken: BTreeSet<u64>,
    /// the node fails to report its height
    pub down: bool,
    /// blocks served, in order
    pub served: Vec<u64>,
    /// the name of the Axelar chain, and the worker's account on it
    pub chain_id: String,
    pub account: Account,
    /// accounts asked for
    pub asked: Vec<String>,
    /// transactions executed: sender, contract, message of every message in each
    pub txs: Vec<Vec<Value>>,
    /// transactions included, and why others were not
    pub included: Vec<Value>,
    pub refused: Vec<String>,
    /// what executing them gives; how many times they are asked for in vain, and the last one with what remains of that
    pub code: u32,
    pub lag: u64,
    pub pending: Option<(String, u64)>,
    /// how often the node was asked for a transaction
    pub polls: u64,
    /// gas of messages, by the text they contain
    pub gas: BTreeMap<String, u64>,
    /// broadcasting, and estimating gas, fails
    pub broadcast_fails: bool,
    pub estimate_fails: bool,
    /// the node answers without the estimate, without the transaction's hash
    pub estimates_nothing: bool,
    pub says_nothing: bool,
    /// what the signing daemon was asked to sign: key id, message, public key
    pub signed: Vec<(String, Vec<u8>, Vec<u8>)>,
    pub sign_fails: bool,
    /// transactions are not signed either
    pub locked: bool,
    /// the secret keys of the signing daemon (the first is the one it generates), and how often it generated one
    pub keys: Vec<[u8; 32]>,
    /// which of them the worker's account has
    pub owner: usize,
    pub keygens: u64,
    /// when these blocks are served: a signal arrives, the signing daemon starts to fail, the daemon crashes
    pub raise_at: Option<(u64, i32)>,
    pub fail_at: Option<u64>,
    pub crash_at: Option<u64>,
    pub crashed: bool,
    /// how long answers take, pseudorandomly
    pub jitter: u64,
    /// answers of the source chain's node, by method and parameters; anything else fails
    pub rpc: BTreeMap<String, Value>,
}

thread_local! {
    static SIM: RefCell<Sim> = RefCell::new(Sim::default());
}

/// How many turns the next answer takes.
pub fn turns() -> u64 {
    with(|s| {
        s.jitter = s.jitter.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        if s.jitter == 1442695040888963407 { 1 } else { (s.jitter >> 40) % 4 }
    })
}

pub fn with<T>(f: impl FnOnce(&mut Sim) -> T) -> T {
    SIM.with(|s| f(&mut s.borrow_mut()))
}
