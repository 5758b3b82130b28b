//! The way into the daemon's parts for the harness.
use std::convert::TryFrom;
use std::path::Path;
use std::time::Duration;

use async_trait::async_trait;
use cosmos_sdk_proto::cosmos::auth::v1beta1::query_client::QueryClient;
use cosmos_sdk_proto::cosmos::base::abci::v1beta1::TxResponse;
use cosmos_sdk_proto::cosmos::tx::v1beta1::service_client::ServiceClient;
use cosmrs::{cosmwasm::MsgExecuteContract, tx::Fee, tx::Msg, AccountId, Any};
use error_stack::Report;
use tendermint::abci;
use tokio::sync::watch;
use tonic::transport::Channel;

use crate::broadcaster::{self, accounts, BroadcastClient, Broadcaster};
use crate::commands;
use crate::config::Config;
use crate::event_processor::EventHandler;
use crate::evm::ChainName;
use crate::handlers::{self, config::Chain};
use crate::json_rpc;
use crate::queue::queued_broadcaster::{
    self, BroadcasterClient, QueuedBroadcaster, QueuedBroadcasterClient, QueuedBroadcasterDriver,
};
use crate::tofnd::{self, grpc::MultisigClient, grpc::SharableEcdsaClient};
use crate::types::TMAddress;
use crate::PREFIX;

/// Notes every message down at once.
struct Direct;

#[async_trait]
impl BroadcasterClient for Direct {
    async fn broadcast<T>(&self, tx: T) -> error_stack::Result<(), queued_broadcaster::Error>
    where
        T: Msg + Send + Sync + 'static,
    {
        sim::with(|s| match s.broadcast_fails {
            true => Err(Report::new(queued_broadcaster::Error::Broadcast)),
            false => {
                let m = tx.into_any().expect("message");
                s.txs.push(vec![serde_json::from_slice(&m.value).expect("message")]);
                Ok(())
            }
        })
    }
}

fn account(text: &str) -> TMAddress {
    text.parse::<AccountId>().expect("account").into()
}

/// A chain's name as the configuration file gives it.
fn chain(name: &str) -> ChainName {
    serde_json::from_value(serde_json::Value::String(name.to_string())).expect("chain name")
}

type EvmMsg = handlers::evm_verify_msg::Handler<json_rpc::Client<json_rpc::Node>, Direct>;
type EvmSet = handlers::evm_verify_worker_set::Handler<json_rpc::Client<json_rpc::Node>, Direct>;
type SuiMsg = handlers::sui_verify_msg::Handler<json_rpc::Client<json_rpc::Node>, Direct>;
type SuiSet = handlers::sui_verify_worker_set::Handler<json_rpc::Client<json_rpc::Node>, Direct>;
type Signer = handlers::multisig::Handler<Direct>;

enum Verifiers {
    Evm(EvmMsg, EvmSet),
    Sui(SuiMsg, SuiSet),
}

/// The handlers of one worker.
pub struct Handlers {
    verifiers: Verifiers,
    signer: Signer,
    height: watch::Sender<u64>,
}

impl Handlers {
    pub async fn new(worker: &str, verifier: &str, multisig: &str, name: &str) -> Self {
        let (height, seen) = watch::channel(0);
        let url = "http://localhost:1/".parse().expect("url");
        let client = || json_rpc::Client::new_http(&url).expect("client");
        let tofnd = MultisigClient::connect("ampd".into(), url.clone()).await.expect("signer");
        Handlers {
            verifiers: match name {
                "sui" => Verifiers::Sui(
                    SuiMsg::new(account(worker), account(verifier), client(), Direct, seen.clone()),
                    SuiSet::new(account(worker), account(verifier), client(), Direct, seen),
                ),
                _ => Verifiers::Evm(
                    EvmMsg::new(account(worker), account(verifier), chain(name), client(), Direct, seen.clone()),
                    EvmSet::new(account(worker), account(verifier), chain(name), client(), Direct, seen),
                ),
            },
            signer: Signer::new(account(worker), account(multisig), Direct, SharableEcdsaClient::new(tofnd)),
            height,
        }
    }

    pub fn at(&self, height: u64) {
        self.height.send_replace(height);
    }

    /// Every handler sees the event; who failed.
    pub async fn handle(&self, event: abci::Event) -> Result<Vec<&'static str>, String> {
        let event = events::Event::try_from(event).map_err(|e| format!("{e:?}"))?;
        let mut failed = vec![];
        let (messages, sets) = match &self.verifiers {
            Verifiers::Evm(m, s) => (m.handle(&event).await, s.handle(&event).await),
            Verifiers::Sui(m, s) => (m.handle(&event).await, s.handle(&event).await),
        };
        if messages.is_err() {
            failed.push("messages");
        }
        if sets.is_err() {
            failed.push("sets");
        }
        if self.signer.handle(&event).await.is_err() {
            failed.push("signer");
        }
        Ok(failed)
    }
}

/// In place of the client of the Axelar node.
struct Recorder;

#[async_trait]
impl Broadcaster for Recorder {
    async fn broadcast(&mut self, msgs: Vec<Any>) -> error_stack::Result<TxResponse, broadcaster::Error> {
        tokio::turns(sim::turns()).await;
        sim::with(|s| {
            if s.broadcast_fails {
                return Err(Report::new(broadcaster::Error::Broadcast));
            }
            s.txs.push(msgs.iter().map(|m| serde_json::from_slice(&m.value).expect("message")).collect());
            Ok(TxResponse::default())
        })
    }

    async fn estimate_fee(&mut self, msgs: Vec<Any>) -> error_stack::Result<Fee, broadcaster::Error> {
        tokio::turns(sim::turns()).await;
        sim::with(|s| {
            if s.estimate_fails {
                return Err(Report::new(broadcaster::Error::GasEstimation));
            }
            let gas = |m: &Any| {
                let text = String::from_utf8_lossy(&m.value).to_string();
                s.gas.iter().filter(|(k, _)| text.contains(k.as_str())).map(|(_, g)| *g).max().unwrap_or(1)
            };
            Ok(Fee { amount: vec![], gas_limit: msgs.iter().map(gas).sum() })
        })
    }
}

/// The queue in front of the broadcaster.
pub struct Queue {
    clients: Vec<QueuedBroadcasterClient>,
    driver: Option<QueuedBroadcasterDriver>,
    task: tokio::task::JoinHandle<Result<(), String>>,
}

impl Queue {
    pub fn start(clients: usize, limit: u64, capacity: usize, interval: Duration) -> Self {
        let (queue, driver) = QueuedBroadcaster::new(Recorder, limit, capacity, interval);
        let clients = (0..clients).map(|_| queue.client()).collect();
        let task = tokio::spawn(async move { queue.run().await.map_err(|e| format!("{e:?}")) });
        Queue { clients, driver: Some(driver), task }
    }

    pub async fn push(&self, client: usize, name: &str) -> bool {
        let any = AccountId::new(PREFIX, &[1; 20]).expect("account");
        let msg = serde_json::json!({ "m": name }).to_string().into_bytes();
        let m = MsgExecuteContract { sender: any.clone(), contract: any, msg, funds: vec![] };
        match self.clients.get(client) {
            Some(c) => c.broadcast(m).await.is_ok(),
            None => false,
        }
    }

    pub async fn force(&self) -> bool {
        match &self.driver {
            Some(d) => d.force_broadcast().await.is_ok(),
            None => false,
        }
    }

    pub fn close(&mut self) {
        self.clients.clear();
    }

    /// None: running
    pub async fn ended(&mut self) -> Option<bool> {
        match self.task.is_finished() {
            true => Some(matches!((&mut self.task).await, Ok(Ok(())))),
            false => None,
        }
    }
}

/// What the broadcaster is configured with: the fields as in the configuration file.
pub fn broadcast_config(fields: serde_json::Value) -> Result<broadcaster::Config, String> {
    serde_json::from_value(fields).map_err(|e| e.to_string())
}

/// A worker and its way to the Axelar chain.
pub struct Sender {
    config: broadcaster::Config,
    client: Option<BroadcastClient<ServiceClient<Channel>>>,
}

impl Sender {
    pub fn new(config: broadcaster::Config) -> Self {
        Sender { config, client: None }
    }

    pub async fn connect(&mut self) -> Result<(), String> {
        self.client = None;
        let node = || "http://localhost:1/".to_string();
        let text = |e: &dyn std::fmt::Debug| format!("{:?}", e);
        let key = sim::with(|s| s.keys[s.owner]);
        let key = k256::ecdsa::SigningKey::from_slice(&key).expect("key");
        let key = crate::types::PublicKey::from(*key.verifying_key());
        let me = key.account_id(PREFIX).expect("account").into();
        let query = QueryClient::connect(node()).await.map_err(|e| text(&e))?;
        let account = accounts::account(query, &me).await.map_err(|e| match e.current_context() {
            accounts::Error::ResponseFailed { .. } => "response".to_string(),
            accounts::Error::AccountNotFound { .. } => "unknown".to_string(),
            accounts::Error::MalformedResponse => "malformed".to_string(),
        })?;
        let service = ServiceClient::connect(node()).await.map_err(|e| text(&e))?;
        let tofnd = MultisigClient::connect("ampd".into(), node().parse().expect("url")).await.map_err(|e| text(&e))?;
        let client = broadcaster::BroadcastClientBuilder::default()
            .client(service)
            .signer(SharableEcdsaClient::new(tofnd))
            .acc_number(account.account_number)
            .acc_sequence(account.sequence)
            .pub_key(("axelar".into(), key))
            .config(self.config.clone())
            .build()
            .map_err(|e| text(&e))?;
        self.client = Some(client);
        Ok(())
    }

    fn messages(names: &[String]) -> Vec<Any> {
        let me = AccountId::new(PREFIX, &[1; 20]).expect("account");
        let one = |name: &String| MsgExecuteContract {
            sender: me.clone(),
            contract: me.clone(),
            msg: serde_json::json!({ "m": name }).to_string().into_bytes(),
            funds: vec![],
        };
        names.iter().map(|n| one(n).into_any().expect("message")).collect()
    }

    fn said(e: Report<broadcaster::Error>) -> &'static str {
        use broadcaster::Error::*;
        match e.current_context() {
            TxBuilding => "build",
            GasEstimation => "gas",
            Broadcast => "broadcast",
            TxConfirmation => "confirm",
            ExecutionError { .. } => "exec",
        }
    }

    /// the amount and denomination of the fee, and its gas
    pub async fn estimate(&mut self, names: &[String]) -> Result<(Vec<(u128, String)>, u64), &'static str> {
        let fee = self.client.as_mut().expect("connected").estimate_fee(Self::messages(names)).await.map_err(Self::said)?;
        Ok((fee.amount.iter().map(|c| (c.amount, c.denom.to_string())).collect(), fee.gas_limit))
    }

    /// the transaction's hash
    pub async fn send(&mut self, names: &[String]) -> Result<String, &'static str> {
        let r = self.client.as_mut().expect("connected").broadcast(Self::messages(names)).await.map_err(Self::said)?;
        Ok(r.txhash)
    }
}

/// A command of the command line, and what it prints.
pub enum Command {
    Bond { service: String, amount: u128, denom: String },
    Declare { service: String, chains: Vec<String> },
    Register,
    Address,
}

pub async fn run_command(c: Command, config: Config, state: &Path) -> Result<Option<String>, String> {
    let read = |v: serde_json::Value| serde_json::from_value(v).map_err(|e| e.to_string());
    let r = match c {
        Command::Bond { service, amount, denom } => {
            let service_name = serde_json::from_value(service.into()).map_err(|e| e.to_string())?;
            commands::bond_worker::run(config, state, commands::bond_worker::Args { service_name, amount, denom }).await
        }
        Command::Declare { service, chains } => {
            let service_name = serde_json::from_value(service.into()).map_err(|e| e.to_string())?;
            let chains = read(chains.into())?;
            commands::declare_chain_support::run(config, state, commands::declare_chain_support::Args { service_name, chains }).await
        }
        Command::Register => commands::register_public_key::run(config, state).await,
        Command::Address => commands::worker_address::run(config.tofnd_config, state).await,
    };
    r.map_err(|e| format!("{:?}", e))
}

/// A daemon with the handlers named, on a state file.
#[derive(Clone)]
pub struct Setup<'a> {
    pub handlers: &'a [String],
    pub verifier: &'a str,
    pub multisig: &'a str,
    pub registry: &'a str,
    pub chain: &'a str,
    /// as in the configuration file
    pub broadcast: serde_json::Value,
}

pub fn config(s: Setup<'_>) -> Config {
    let url: crate::url::Url = "http://localhost:1/".parse().expect("url");
    let on = || Chain { name: chain(s.chain), rpc_url: url.clone() };
    Config {
        tm_jsonrpc: url.clone(),
        tm_grpc: url.clone(),
        event_buffer_cap: 1 << 14,
        broadcast: broadcast_config(s.broadcast.clone()).expect("configuration"),
        handlers: s
            .handlers
            .iter()
            .map(|h| match h.as_str() {
                "messages" => handlers::config::Config::EvmMsgVerifier { cosmwasm_contract: account(s.verifier), chain: on() },
                "sets" => handlers::config::Config::EvmWorkerSetVerifier { cosmwasm_contract: account(s.verifier), chain: on() },
                "signer" => handlers::config::Config::MultisigSigner { cosmwasm_contract: account(s.multisig) },
                h => panic!("handler {}", h),
            })
            .collect(),
        tofnd_config: tofnd::Config { url: url.clone(), party_uid: "ampd".into(), key_uid: "axelar".into() },
        service_registry: commands::ServiceRegistryConfig { cosmwasm_contract: account(s.registry) },
    }
}

pub async fn run_daemon(s: Setup<'_>, state: &Path) -> bool {
    commands::daemon::run(config(s), state).await.is_ok()
}

/// The account of a signing key.
pub fn account_of(key: &k256::ecdsa::VerifyingKey) -> String {
    crate::types::PublicKey::from(*key).account_id(PREFIX).expect("account").to_string()
}
