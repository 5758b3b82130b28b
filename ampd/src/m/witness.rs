//! The handlers of one worker, fed with events of the real contracts and receipts of a simulated EVM chain.
use std::collections::{BTreeMap, HashMap};

use ampd::entry::Handlers;
use base64::{engine::general_purpose::STANDARD, Engine};
use connection_router::state::ChainName;
use cosmwasm_std::{Addr, Event, HexBinary, Uint256, Uint64};
use ethers::abi::{encode, Token};
use ethers::types::{Address, Block, Bytes, Log, TransactionReceipt, H256, U256, U64};
use k256::ecdsa::{signature::hazmat::PrehashVerifier, Signature, SigningKey};
use serde_json::{json, Value};
use sha3::{Digest, Keccak256};
use sui_types::base_types::{SuiAddress, TransactionDigest};
use tendermint::abci;
use tokio::runtime::Runtime;
use voting_verifier::events::{PollMetadata, PollStarted};

use super::Part;

pub fn keccak(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Keccak256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

/// The account of a worker or a contract.
pub fn account(name: &str) -> String {
    use bech32::ToBase32;
    let bytes = keccak(&[b"account", name.as_bytes()]);
    let n = if name.starts_with('w') { 20 } else { 32 };
    bech32::encode("axelar", bytes[..n].to_vec().to_base32(), bech32::Variant::Bech32).expect("account")
}

pub fn key(name: &str) -> SigningKey {
    SigningKey::from_slice(&keccak(&[b"key", name.as_bytes()])).expect("key")
}

pub fn num(v: &Value) -> u64 {
    match v.as_u64().unwrap_or_else(|| panic!("number {v}")) {
        2147483647 => u64::MAX,
        n => n,
    }
}

/// back into what TLC can hold
pub fn abs(n: u64) -> u64 {
    if n == u64::MAX {
        2147483647
    } else {
        n
    }
}

/// An event of a contract as it appears in a block.
pub fn emitted(by: &str, e: Event) -> abci::Event {
    let b64 = |x: String| STANDARD.encode(x);
    let mut attributes = vec![("_contract_address".to_string(), account(by))];
    attributes.extend(e.attributes.into_iter().map(|a| (a.key, a.value)));
    abci::Event {
        kind: format!("wasm-{}", e.ty),
        attributes: attributes
            .into_iter()
            .map(|(k, v)| abci::EventAttribute { key: b64(k), value: b64(v), index: true })
            .collect(),
    }
}

pub struct Names {
    pub seed: u64,
    /// not an EVM chain
    pub sui: bool,
}

impl Names {
    /// the chain's name as the Axelar chain gives it, and as the worker's configuration does
    pub fn chain(&self, c: &str) -> (String, String) {
        match c {
            "ethereum" => ("ethereum".into(), "Ethereum".into()),
            "other" => ("avalanche".into(), "Avalanche".into()),
            "third" => ("ethereum-2".into(), "ethereum-2".into()),
            c => (c.into(), c.into()),
        }
    }

    fn bytes(&self, what: &str, v: &Value) -> [u8; 32] {
        keccak(&[b"witness", &self.seed.to_be_bytes(), what.as_bytes(), v.to_string().as_bytes()])
    }

    fn gateway(&self, g: &Value) -> Address {
        Address::from_slice(&self.bytes("gateway", g)[..20])
    }

    fn source(&self, s: &Value) -> Address {
        Address::from_slice(&self.bytes("source", s)[..20])
    }

    pub fn tx(&self, t: &Value) -> H256 {
        H256::from(self.bytes("tx", t))
    }

    fn tx_text(&self, t: &Value) -> String {
        match self.sui {
            true => TransactionDigest::new(self.bytes("tx", t)).base58_encode(),
            false => format!("0x{}", hex::encode(self.tx(t))),
        }
    }

    fn gateway_text(&self, g: &Value, checksum: bool) -> String {
        match self.sui {
            true => self.sui_address("gateway", g),
            false => evm(self.gateway(g), checksum),
        }
    }

    fn source_text(&self, s: &Value, checksum: bool) -> String {
        match self.sui {
            true => self.sui_address("source", s),
            false => evm(self.source(s), checksum),
        }
    }

    fn sui_address(&self, what: &str, v: &Value) -> String {
        SuiAddress::from_bytes(self.bytes(what, v)).expect("address").to_string()
    }

    fn dest(&self, d: &Value) -> String {
        format!("dest-{}", d.as_str().expect("chain"))
    }

    fn text(&self, d: &Value) -> String {
        match num(d) {
            1 => "0xD35t".to_string() + &hex::encode(&self.bytes("da", &json!(1))[..8]),
            // differs from the first in little
            2 => "0xd35t".to_string() + &hex::encode(&self.bytes("da", &json!(1))[..8]),
            _ => hex::encode(self.bytes("da", d)),
        }
    }

    fn hash(&self, p: &Value) -> [u8; 32] {
        let mut h = self.bytes("payload", &json!(1));
        h[31] ^= num(p) as u8;
        h
    }

    fn operators(&self, o: &Value) -> (Vec<(Address, U256)>, U256) {
        let all = |n: u64, w: u64| {
            let mut a: Vec<_> = (0..n)
                .map(|i| (Address::from_slice(&self.bytes("operator", &json!(i))[..20]), U256::from(w + i)))
                .collect();
            a.sort();
            a
        };
        match o.as_str().expect("operators") {
            "o1" => (all(3, 1), U256::from(3)),
            "o2" => (all(3, 1), U256::from(4)),
            "o3" => (all(3, 2), U256::from(3)),
            "o4" => (all(2, 1), U256::from(3)),
            "o5" => (all(5, 10), U256::MAX),
            o => panic!("operators {o}"),
        }
    }

    fn log(&self, tx: &Value, l: &Value) -> Log {
        let c = &l["c"];
        let word = |a: Address| H256::from(a);
        let (topics, data) = match l["k"].as_str().expect("kind") {
            "call" => (
                vec![
                    H256::from(keccak(&[b"ContractCall(address,string,string,bytes32,bytes)"])),
                    word(self.source(&c["src"])),
                    H256::from(self.hash(&c["ph"])),
                ],
                encode(&[
                    Token::String(if self.seed % 2 == 0 { self.dest(&c["dst"]) } else { self.dest(&c["dst"]).to_uppercase() }),
                    Token::String(self.text(&c["da"])),
                    Token::Bytes(b"payload".to_vec()),
                ]),
            ),
            "ops" => {
                let (who, threshold) = self.operators(&c["ops"]);
                let data = encode(&[
                    Token::Array(who.iter().map(|x| Token::Address(x.0)).collect()),
                    Token::Array(who.iter().map(|x| Token::Uint(x.1)).collect()),
                    Token::Uint(threshold),
                ]);
                (vec![H256::from(keccak(&[b"OperatorshipTransferred(bytes)"]))], encode(&[Token::Bytes(data)]))
            }
            "none" => (vec![H256::from(keccak(&[b"Transfer(address,address,uint256)"]))], vec![1; 32]),
            k => panic!("log {k}"),
        };
        Log {
            address: self.gateway(&l["by"]),
            topics,
            data: Bytes::from(data),
            transaction_hash: Some(if l["own"] == true { self.tx(tx) } else { self.tx(&json!("elsewhere")) }),
            log_index: Some(U256::from(num(&l["ix"]))),
            ..Log::default()
        }
    }

    /// a transaction's block as a Sui node gives it
    fn sui_block(&self, tx: &Value, blk: u64, logs: &[Value]) -> Value {
        let event = |l: &Value| {
            let c = &l["c"];
            let (kind, content) = match l["k"].as_str().expect("kind") {
                "call" => (
                    "gateway::ContractCall",
                    json!({
                        "source_id": self.sui_address("source", &c["src"]),
                        "destination_chain": if self.seed % 2 == 0 { self.dest(&c["dst"]) } else { self.dest(&c["dst"]).to_uppercase() },
                        "destination_address": self.text(&c["da"]),
                        "payload": b"payload",
                        "payload_hash": format!("0x{}", hex::encode(self.hash(&c["ph"]))),
                    }),
                ),
                "ops" => {
                    let (who, threshold) = self.operators(&c["ops"]);
                    let (keys, weights): (Vec<_>, Vec<_>) =
                        who.into_iter().map(|(a, w)| ([a.as_bytes(), &[3; 12]].concat(), w.low_u128())).unzip();
                    let payload = bcs::to_bytes(&(keys, weights, threshold.low_u128())).expect("payload");
                    ("validators::OperatorshipTransferred", json!({ "payload": payload }))
                }
                // another module's or kind of event that says the same as one that counts
                "none" => (
                    if self.seed % 2 == 0 { "gateway::ContractCallApproved" } else { "caller::ContractCall" },
                    json!({
                        "source_id": self.sui_address("source", &json!(1)),
                        "destination_chain": "dest-b",
                        "destination_address": self.text(&json!(1)),
                        "payload_hash": format!("0x{}", hex::encode(self.hash(&json!(1)))),
                    }),
                ),
                k => panic!("log {k}"),
            };
            let by = self.sui_address("gateway", &l["by"]);
            json!({
                "id": { "txDigest": self.tx_text(tx), "eventSeq": num(&l["ix"]).to_string() },
                "packageId": by,
                "transactionModule": "caller",
                "sender": self.sui_address("source", &json!(9)),
                "type": format!("{by}::{kind}"),
                "parsedJson": content,
                "bcs": "",
            })
        };
        let mut block = json!({ "digest": self.tx_text(tx), "events": logs.iter().map(event).collect::<Vec<_>>(), "timestampMs": "1" });
        if blk > 0 {
            block["checkpoint"] = json!(blk.to_string());
        }
        block
    }

    fn metadata(&self, q: &Value) -> PollMetadata {
        let mut who: Vec<_> = q["part"].as_array().expect("participants").iter().map(|w| w.as_str().expect("worker")).collect();
        who.sort();
        if self.seed % 2 == 1 {
            who.reverse();
        }
        PollMetadata {
            poll_id: serde_json::from_value(json!(num(&q["poll"]).to_string())).expect("poll id"),
            source_chain: self.chain(q["chain"].as_str().expect("chain")).0.parse::<ChainName>().expect("chain"),
            source_gateway_address: self.gateway_text(&q["gw"], self.seed % 3 == 1).try_into().expect("gateway"),
            confirmation_height: num(&q["conf"]),
            expires_at: num(&q["exp"]),
            participants: who.into_iter().map(|w| Addr::unchecked(account(w))).collect(),
        }
    }

    pub fn messages_poll(&self, q: &Value) -> Event {
        let msgs = q["msgs"].as_array().expect("messages");
        let one = |(i, m): (usize, &Value)| {
            let c = &m["c"];
            let form = if i + 1 == msgs.len() { q["form"].as_str().unwrap_or("good") } else { "good" };
            let tx = self.tx_text(&m["tx"]);
            serde_json::from_value(json!({
                "tx_id": if form == "tx" { &tx[..tx.len() - 2] } else { &tx },
                "event_index": num(&m["ix"]),
                "destination_address": self.text(&c["da"]),
                "destination_chain": self.dest(&c["dst"]),
                "source_address": if form == "src" { account("wx") } else { self.source_text(&c["src"], self.seed % 3 == 2) },
                "payload_hash": hex::encode(self.hash(&c["ph"])),
            }))
            .expect("message")
        };
        PollStarted::Messages { messages: msgs.iter().enumerate().map(one).collect(), metadata: self.metadata(q) }.into()
    }

    pub fn set_poll(&self, q: &Value) -> Event {
        let form = q["form"].as_str().unwrap_or("good");
        let (who, threshold) = self.operators(&q["ops"]);
        let u = |x: U256| {
            let mut b = [0; 32];
            x.to_big_endian(&mut b);
            Uint256::from_be_bytes(b)
        };
        let operators = axelar_wasm_std::operators::Operators::new(
            who.into_iter()
                .enumerate()
                .map(|(i, (a, w))| match form {
                    _ if self.sui => ([a.as_bytes(), &[3; 12]].concat(), if form == "wide" { w + (U256::one() << 128) } else { w }),
                    "addr" if i == 1 => ([a.as_bytes(), &[2; 13]].concat(), w),
                    "short" => (a.as_bytes()[..19].to_vec(), w),
                    _ => (a.as_bytes().to_vec(), w),
                })
                .map(|(a, w)| (HexBinary::from(a), u(w)))
                .collect(),
            u(threshold),
        );
        let tx = self.tx_text(&q["tx"]);
        let worker_set = serde_json::from_value(json!({
            "tx_id": if form == "tx" { &tx[..tx.len() - 2] } else { &tx },
            "event_index": num(&q["ix"]),
            "operators": operators,
        }))
        .expect("worker set");
        PollStarted::WorkerSet { worker_set, metadata: self.metadata(q) }.into()
    }

    fn to_sign(&self, v: u64) -> [u8; 32] {
        self.bytes("sign", &json!(v))
    }

    pub fn signing(&self, q: &Value) -> Event {
        let pub_keys: HashMap<String, multisig::key::PublicKey> = q["keys"]
            .as_object()
            .map(|m| {
                m.iter()
                    .map(|(w, k)| {
                        let k = k.as_str().expect("key");
                        let k = match &k[..1] {
                            "k" => multisig::key::PublicKey::Ecdsa(HexBinary::from(
                                key(k).verifying_key().to_encoded_point(true).as_bytes(),
                            )),
                            _ => multisig::key::PublicKey::Ed25519(HexBinary::from(self.bytes("ed", &json!(k)))),
                        };
                        (account(w), k)
                    })
                    .collect()
            })
            .unwrap_or_default();
        multisig::events::Event::SigningStarted {
            session_id: Uint64::from(num(&q["session"])),
            worker_set_id: "set".into(),
            pub_keys,
            msg: multisig::types::MsgToSign::unchecked(HexBinary::from(self.to_sign(num(&q["v"])))),
            chain_name: "dest-b".parse().expect("chain"),
        }
        .into()
    }

    /// What other contracts may emit under the same name.
    fn junk(&self, q: &Value) -> Event {
        let kind = q["kind"].as_str().expect("kind");
        let poll = json!({"poll": 7, "chain": "ethereum", "gw": "g1", "conf": 1, "exp": 1000, "part": ["w1"], "form": "good",
            "msgs": [{"tx": 1, "ix": 0, "c": {"src": 1, "dst": "b", "da": 1, "ph": 1}}], "tx": 1, "ix": 0, "ops": "o1",
            "keys": {"w1": "k1"}, "session": 3, "v": 1});
        let full = match kind {
            "messages_poll_started" => self.messages_poll(&poll),
            "worker_set_poll_started" => self.set_poll(&poll),
            _ => self.signing(&poll),
        };
        match q["form"].as_str().expect("form") {
            "empty" => Event::new(kind),
            "partial" => Event::new(kind).add_attributes(full.attributes.into_iter().skip(1)),
            "types" => Event::new(kind).add_attributes(full.attributes.into_iter().map(|a| (a.key, "[[]]".to_string()))),
            "nogateway" => Event::new(kind).add_attributes(full.attributes.into_iter().map(|a| match a.key.as_str() {
                "source_gateway_address" | "pub_keys" => (a.key, "gateway".to_string()),
                _ => (a.key, a.value),
            })),
            f => panic!("form {f}"),
        }
    }
}

/// An EVM address as text, maybe with its checksum.
fn evm(a: Address, checksum: bool) -> String {
    if checksum {
        ethers::utils::to_checksum(&a, None)
    } else {
        format!("{a:?}")
    }
}

pub struct Witness {
    pub seed: u64,
}

pub struct Live {
    rt: Runtime,
    handlers: Handlers,
    me: String,
    names: Names,
    recs: BTreeMap<String, (Value, Value)>,
    head: u64,
    fin: u64,
    node: String,
    height: u64,
}

/// Lets the source chain's node answer as it would in this state.
pub fn answers(names: &Names, txs: &[Value], recs: &BTreeMap<String, (Value, Value)>, head: u64, fin: u64, node: &str) {
    let mut rpc = BTreeMap::new();
    if names.sui {
        if node == "ok" || node == "nofin" {
            rpc.insert("sui".to_string(), Value::Null);
            for tx in txs {
                let answer = match recs.get(&tx.to_string()) {
                    None => json!({ "digest": names.tx_text(tx), "unknown": true, "errors": ["not found"] }),
                    Some((blk, logs)) => names.sui_block(tx, num(blk), logs.as_array().expect("logs")),
                };
                rpc.insert(format!("sui {}", names.tx_text(tx)), answer);
            }
        }
        sim::with(|s| s.rpc = rpc);
        return;
    }
    if node != "down" {
        rpc.insert("eth_blockNumber null".to_string(), serde_json::to_value(U64::from(head)).expect("number"));
        let number = if node == "nofin" { None } else { Some(U64::from(fin)) };
        let block = serde_json::to_value(Block::<H256> { number, ..Default::default() }).expect("block");
        rpc.insert(r#"eth_getBlockByNumber ["finalized",false]"#.to_string(), block);
    }
    if node == "ok" || node == "nofin" {
        for tx in txs {
            let hash = names.tx(tx);
            let answer = match recs.get(&tx.to_string()) {
                None => Value::Null,
                Some((blk, logs)) => serde_json::to_value(TransactionReceipt {
                    transaction_hash: hash,
                    block_number: Some(num(blk)).filter(|b| *b > 0).map(U64::from),
                    logs: logs.as_array().expect("logs").iter().map(|l| names.log(tx, l)).collect(),
                    ..Default::default()
                })
                .expect("receipt"),
            };
            rpc.insert(format!(r#"eth_getTransactionReceipt ["{hash:?}"]"#), answer);
        }
    }
    sim::with(|s| s.rpc = rpc);
}

pub fn vote_of(v: &Value) -> &'static str {
    match v.as_str() {
        Some("succeeded_on_chain") => "S",
        Some("failed_on_chain") => "F",
        Some("not_found") => "N",
        _ => "?",
    }
}

pub fn contract_of(address: &Value) -> String {
    let known = ["ver", "mul", "foe", "bar"];
    known.iter().find(|n| *address == json!(account(n))).map_or_else(|| format!("unknown {address}"), |n| n.to_string())
}

fn number(v: &Value) -> u64 {
    abs(v.as_str().and_then(|x| x.parse().ok()).unwrap_or(999_999_999))
}

impl Live {
    fn hear(&mut self, e: abci::Event) -> (Vec<Value>, String) {
        sim::with(|s| s.txs.clear());
        let failed = self.rt.block_on(self.handlers.handle(e)).unwrap_or_else(|e| panic!("{e}"));
        let sent: Vec<Value> = sim::with(|s| s.txs.drain(..).flatten().collect());
        for m in &sent {
            assert!(m["sender"] == json!(account(&self.me)) && m["funds"] == json!([]), "sender and funds {m}");
        }
        (sent, failed.join(","))
    }

    fn poll(&mut self, q: &Value, txs: &[Value], e: abci::Event) -> Value {
        answers(&self.names, txs, &self.recs, self.head, self.fin, &self.node);
        let (sent, failed) = self.hear(e);
        let _ = q;
        let Some(m) = sent.first() else {
            return json!({"n": 0, "to": "", "poll": 0, "votes": [], "failed": failed});
        };
        let v = &m["msg"]["vote"];
        json!({"n": sent.len(), "to": contract_of(&m["contract"]), "poll": number(&v["poll_id"]), "failed": failed,
               "votes": v["votes"].as_array().map(|a| a.iter().map(vote_of).collect::<Vec<_>>())})
    }
}

impl Part for Witness {
    type Live = Live;

    fn start(&self, cfg: &Value) -> Live {
        let rt = super::runtime(self.seed);
        let names = Names { seed: self.seed, sui: cfg["chain"] == "sui" };
        let me = cfg["me"].as_str().expect("worker").to_string();
        sim::with(|s| s.jitter = self.seed * 131 + 3);
        sim::with(|s| s.keys = ["k1", "k2"].iter().map(|k| key(k).to_bytes().into()).collect());
        let chain = names.chain(cfg["chain"].as_str().expect("chain")).1;
        let handlers = rt.block_on(Handlers::new(&account(&me), &account("ver"), &account("mul"), &chain));
        handlers.at(1);
        Live { rt, handlers, me, names, recs: BTreeMap::new(), head: 1, fin: 1, node: "ok".into(), height: 1 }
    }

    fn exec(&self, l: &mut Live, q: &Value) -> Value {
        let from = q["from"].as_str().unwrap_or("").to_string();
        match q["t"].as_str().expect("request") {
            "Mine" => {
                l.recs.insert(q["tx"].to_string(), (q["blk"].clone(), q["logs"].clone()));
                json!([])
            }
            "Drop" => {
                l.recs.remove(&q["tx"].to_string());
                json!([])
            }
            "Grow" => {
                (l.head, l.fin) = (num(&q["head"]), num(&q["fin"]));
                json!([])
            }
            "Node" => {
                l.node = q["x"].as_str().expect("node").to_string();
                json!([])
            }
            "Signer" => {
                sim::with(|s| s.sign_fails = q["x"] == false);
                json!([])
            }
            "Height" => {
                l.height = num(&q["h"]);
                l.handlers.at(l.height);
                json!([])
            }
            "Msgs" => {
                let txs: Vec<_> = q["msgs"].as_array().expect("messages").iter().map(|m| m["tx"].clone()).collect();
                let e = emitted(&from, l.names.messages_poll(q));
                l.poll(q, &txs, e)
            }
            "Set" => {
                let e = emitted(&from, l.names.set_poll(q));
                l.poll(q, &[q["tx"].clone()], e)
            }
            "Sign" => {
                let e = emitted(&from, l.names.signing(q));
                let (sent, failed) = l.hear(e);
                let Some(m) = sent.first() else {
                    return json!({"n": 0, "to": "", "session": 0, "key": "", "v": 0, "failed": failed});
                };
                let s = &m["msg"]["submit_signature"];
                let sig = s["signature"].as_str().and_then(|x| hex::decode(x).ok()).and_then(|b| Signature::from_slice(&b).ok());
                let found = sig.and_then(|sig| {
                    let all = ["k1", "k2", "k9"].into_iter().flat_map(|k| (1..=3).map(move |v| (k, v)));
                    all.into_iter().find(|(k, v)| key(k).verifying_key().verify_prehash(&l.names.to_sign(*v), &sig).is_ok())
                });
                let (k, v) = found.unwrap_or(("unknown", 0));
                json!({"n": sent.len(), "to": contract_of(&m["contract"]), "session": number(&s["session_id"]), "key": k, "v": v,
                       "failed": failed})
            }
            "Junk" => {
                let e = emitted(&from, l.names.junk(q));
                answers(&l.names, &[json!(1)], &l.recs, l.head, l.fin, &l.node);
                let (sent, failed) = l.hear(e);
                json!({"n": sent.len(), "failed": failed})
            }
            t => panic!("request {t}"),
        }
    }

    fn observe(&self, l: &mut Live) -> Value {
        json!({ "h": l.height })
    }
}
