//! The Axelar node: one account, the transactions it includes, and what it says of them.
use std::marker::PhantomData;

use k256::ecdsa::{signature::hazmat::PrehashVerifier, Signature, VerifyingKey};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use sim::Sim;
use tonic::{Response, Status};

use crate::cosmos::auth::v1beta1::{BaseAccount, QueryAccountRequest, QueryAccountResponse};
use crate::cosmos::base::abci::v1beta1::{GasInfo, TxResponse};
use crate::cosmos::tx::v1beta1::*;
use crate::traits::Message;
use crate::Any;

type Answer<T> = Result<Response<T>, Status>;

pub struct ServiceClient<C>(PhantomData<C>);
pub struct QueryClient<C>(PhantomData<C>);

impl<C> Clone for ServiceClient<C> {
    fn clone(&self) -> Self {
        ServiceClient(PhantomData)
    }
}

fn reach() -> Result<(), Status> {
    match sim::with(|s| s.down) {
        true => Err(Status::unavailable("unreachable")),
        false => Ok(()),
    }
}

impl<C> QueryClient<C> {
    pub async fn connect(_: String) -> Result<Self, Status> {
        reach().map(|_| QueryClient(PhantomData))
    }

    pub async fn account(&mut self, request: QueryAccountRequest) -> Answer<QueryAccountResponse> {
        tokio::turns(sim::turns()).await;
        sim::with(|s| {
            s.asked.push(request.address.clone());
            let account = BaseAccount { address: request.address, pub_key: None, account_number: s.account.number, sequence: s.account.sequence };
            let value = |v| Any { type_url: "/cosmos.auth.v1beta1.BaseAccount".into(), value: v };
            let account = match s.account.answer.as_str() {
                "down" => return Err(Status::unavailable("no answer")),
                "unknown" => return Err(Status::not_found("no such account")),
                "none" => None,
                "bad" => Some(value(vec![1, 2, 3])),
                _ => Some(value(account.encode_to_vec())),
            };
            Ok(Response(QueryAccountResponse { account }))
        })
    }
}

struct Tx {
    body: TxBody,
    auth: AuthInfo,
    raw: TxRaw,
}

fn decode(bytes: &[u8]) -> Result<Tx, Status> {
    let bad = |_| Status::internal("tx parse error");
    let raw = TxRaw::decode(bytes).map_err(bad)?;
    Ok(Tx { body: TxBody::decode(&raw.body_bytes).map_err(bad)?, auth: AuthInfo::decode(&raw.auth_info_bytes).map_err(bad)?, raw })
}

/// What the messages cost, by the texts they contain.
fn gas(s: &Sim, tx: &Tx) -> u64 {
    let one = |m: &Any| {
        let text = String::from_utf8_lossy(&m.value).to_string();
        s.gas.iter().filter(|(k, _)| text.contains(k.as_str())).map(|(_, g)| *g).max().unwrap_or(1)
    };
    tx.body.messages.iter().map(one).sum()
}

/// The key that signed for our account, as the transaction says and its signature shows.
fn authentic(s: &Sim, tx: &Tx) -> Result<(), &'static str> {
    let doc = SignDoc {
        body_bytes: tx.raw.body_bytes.clone(),
        auth_info_bytes: tx.raw.auth_info_bytes.clone(),
        chain_id: s.chain_id.clone(),
        account_number: s.account.number,
    };
    let ours = s.keys.get(s.owner).and_then(|k| k256::ecdsa::SigningKey::from_slice(k).ok()).ok_or("no account")?;
    let key = VerifyingKey::from_sec1_bytes(&tx.auth.public_key).map_err(|_| "no public key")?;
    if key != *ours.verifying_key() {
        return Err("another's public key");
    }
    let [signature] = tx.raw.signatures.as_slice() else { return Err("number of signatures") };
    let signature = Signature::from_slice(signature).map_err(|_| "form of the signature")?;
    key.verify_prehash(&Sha256::digest(doc.encode_to_vec()), &signature).map_err(|_| "signature")
}

fn message(m: &Any) -> Value {
    serde_json::from_slice(&m.value).expect("message")
}

impl<C> ServiceClient<C> {
    pub async fn connect(_: String) -> Result<Self, Status> {
        reach().map(|_| ServiceClient(PhantomData))
    }

    pub async fn simulate(&mut self, request: SimulateRequest) -> Answer<SimulateResponse> {
        tokio::turns(sim::turns()).await;
        sim::with(|s| {
            let tx = decode(&request.tx_bytes)?;
            if s.estimate_fails {
                return Err(Status::unavailable("no answer"));
            }
            if tx.auth.sequence != s.account.sequence || tx.raw.signatures.len() != 1 {
                return Err(Status::internal("account sequence mismatch"));
            }
            let gas_info = match s.estimates_nothing {
                true => None,
                false => Some(GasInfo { gas_wanted: 0, gas_used: gas(s, &tx) }),
            };
            Ok(Response(SimulateResponse { gas_info, result: None }))
        })
    }

    pub async fn broadcast_tx(&mut self, request: BroadcastTxRequest) -> Answer<BroadcastTxResponse> {
        tokio::turns(sim::turns()).await;
        sim::with(|s| {
            if s.broadcast_fails {
                return Err(Status::unavailable("no answer"));
            }
            let tx = decode(&request.tx_bytes)?;
            let hash = Sha256::digest(&request.tx_bytes).iter().map(|b| format!("{b:02X}")).collect::<String>();
            let refusal = match authentic(s, &tx) {
                Err(e) => Some(e),
                Ok(()) if tx.auth.sequence != s.account.sequence => Some("sequence"),
                Ok(()) => None,
            };
            if request.mode == BroadcastMode::Unspecified as i32 {
                return Err(Status::internal("unspecified mode"));
            }
            let mut response = TxResponse { txhash: hash.clone(), ..Default::default() };
            match refusal {
                Some(e) => {
                    s.refused.push(e.to_string());
                    response.code = 32;
                    response.raw_log = e.to_string();
                }
                None => {
                    s.account.sequence += 1;
                    s.pending = Some((hash.clone(), s.lag));
                    let msgs: Vec<Value> = tx.body.messages.iter().map(message).collect();
                    s.included.push(json!({ "hash": hash, "seq": tx.auth.sequence, "gas": tx.auth.gas_limit, "msgs": msgs,
                        "fee": tx.auth.fee_amounts.iter().map(|a| a.to_string()).collect::<Vec<_>>(), "denom": tx.auth.fee_denoms,
                        "memo": tx.body.memo, "timeout": tx.body.timeout_height }));
                    if s.code == 0 {
                        s.txs.push(msgs);
                    }
                }
            }
            let tx_response = if s.says_nothing { None } else { Some(response) };
            Ok(Response(BroadcastTxResponse { tx_response }))
        })
    }

    pub async fn get_tx(&mut self, request: GetTxRequest) -> Answer<GetTxResponse> {
        tokio::turns(sim::turns()).await;
        sim::with(|s| {
            s.polls += 1;
            match &mut s.pending {
                Some((hash, 0)) if *hash == request.hash => {
                    let tx_response = TxResponse { txhash: request.hash, height: 5, code: s.code, ..Default::default() };
                    return Ok(Response(GetTxResponse { tx: None, tx_response: Some(tx_response) }));
                }
                Some((hash, lag)) if *hash == request.hash => *lag -= 1,
                _ => (),
            }
            match s.polls % 3 {
                0 => Ok(Response(GetTxResponse { tx: None, tx_response: None })),
                1 => Err(Status::not_found("tx not found")),
                _ => Err(Status::unavailable("no answer")),
            }
        })
    }
}
