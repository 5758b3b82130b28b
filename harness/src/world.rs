//! A small chain: the real contracts, recording peers and a bank, with cheap snapshots of everything.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;

use anyhow::{anyhow, Result as AnyResult};
use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{
    Addr, Api, Binary, BlockInfo, Coin, CosmosMsg, CustomQuery, Deps, DepsMut, Empty, Env,
    MessageInfo, Order, Querier, QueryRequest, Record, Reply, Response, Storage, Timestamp,
    WasmMsg, WasmQuery,
};
use cw_multi_test::{
    App, AppBuilder, AppResponse, BankKeeper, Contract, CosmosRouter, Executor, FailingDistribution,
    FailingStaking, Module, WasmKeeper,
};
use schemars::JsonSchema;
use serde::de::DeserializeOwned;
use serde_json::{json, Value};

/// Custom chain messages (the nexus module's), kept as JSON.
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
#[serde(transparent)]
pub struct Custom(pub Value);

impl JsonSchema for Custom {
    fn schema_name() -> String {
        "Custom".into()
    }
    fn json_schema(_: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
        schemars::schema::Schema::Bool(true)
    }
}

impl cosmwasm_std::CustomMsg for Custom {}

type Map = BTreeMap<Vec<u8>, Vec<u8>>;

#[derive(Clone)]
pub struct Mem(Rc<RefCell<Arc<Map>>>);

impl Storage for Mem {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.0.borrow().get(key).cloned()
    }
    fn range<'a>(
        &'a self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = Record> + 'a> {
        use std::ops::Bound::*;
        let lo = start.map_or(Unbounded, |s| Included(s.to_vec()));
        let hi = end.map_or(Unbounded, |e| Excluded(e.to_vec()));
        if let (Included(a), Excluded(b)) = (&lo, &hi) {
            if a >= b {
                return Box::new(std::iter::empty());
            }
        }
        let m = self.0.borrow();
        let v: Vec<Record> = m.range((lo, hi)).map(|(k, v)| (k.clone(), v.clone())).collect();
        match order {
            Order::Ascending => Box::new(v.into_iter()),
            Order::Descending => Box::new(v.into_iter().rev()),
        }
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        Arc::make_mut(&mut *self.0.borrow_mut()).insert(key.to_vec(), value.to_vec());
    }
    fn remove(&mut self, key: &[u8]) {
        Arc::make_mut(&mut *self.0.borrow_mut()).remove(key);
    }
}

/// Everything peers and the custom module received in the current call, in order.
#[derive(Clone, Debug)]
pub struct Sent {
    pub from: String,
    pub to: String,
    pub msg: Value,
    pub funds: Vec<Coin>,
}

thread_local! {
    static LOG: RefCell<Vec<Sent>> = RefCell::new(vec![]);
}

pub fn log_push(s: Sent) {
    LOG.with(|l| l.borrow_mut().push(s));
}

pub struct CustomSink;

impl Module for CustomSink {
    type ExecT = Custom;
    type QueryT = Empty;
    type SudoT = Empty;
    fn execute<ExecC, QueryC>(
        &self,
        _api: &dyn Api,
        _storage: &mut dyn Storage,
        _router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        _block: &BlockInfo,
        sender: Addr,
        msg: Custom,
    ) -> AnyResult<AppResponse>
    where
        ExecC: std::fmt::Debug + Clone + PartialEq + JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        log_push(Sent {
            from: sender.to_string(),
            to: "CUSTOM".into(),
            msg: msg.0,
            funds: vec![],
        });
        Ok(AppResponse::default())
    }
    fn sudo<ExecC, QueryC>(
        &self,
        _api: &dyn Api,
        _storage: &mut dyn Storage,
        _router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        _block: &BlockInfo,
        _msg: Empty,
    ) -> AnyResult<AppResponse>
    where
        ExecC: std::fmt::Debug + Clone + PartialEq + JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        Err(anyhow!("no sudo"))
    }
    fn query(
        &self,
        _api: &dyn Api,
        _storage: &dyn Storage,
        _querier: &dyn Querier,
        _block: &BlockInfo,
        _request: Empty,
    ) -> AnyResult<Binary> {
        Err(anyhow!("no custom query"))
    }
}

pub type TheApp = App<
    BankKeeper,
    MockApi,
    Mem,
    CustomSink,
    WasmKeeper<Custom, Empty>,
    FailingStaking,
    FailingDistribution,
>;

/// A neighbour contract: records what it is sent; answers queries from its own storage through `answer`;
/// replies to an execution with the data that `respond` computes.
pub struct Peer {
    pub answer: fn(&Value, &dyn Storage, &Env) -> AnyResult<Value>,
    pub respond: fn(&Value, &mut dyn Storage, &Env) -> AnyResult<Option<Value>>,
}

pub fn no_answer(q: &Value, _: &dyn Storage, _: &Env) -> AnyResult<Value> {
    Err(anyhow!("peer has no answer to {q}"))
}
pub fn no_data(_: &Value, _: &mut dyn Storage, _: &Env) -> AnyResult<Option<Value>> {
    Ok(None)
}

impl Peer {
    pub fn silent() -> Box<dyn Contract<Custom>> {
        Box::new(Peer { answer: no_answer, respond: no_data })
    }
}

impl Contract<Custom> for Peer {
    fn execute(&self, deps: DepsMut, env: Env, info: MessageInfo, msg: Vec<u8>) -> AnyResult<Response<Custom>> {
        let msg: Value = serde_json::from_slice(&msg)?;
        // programming by the harness
        if info.sender.as_str() == "harness" {
            for (k, v) in msg["set"].as_object().expect("set") {
                deps.storage.set(k.as_bytes(), v.to_string().as_bytes());
            }
            return Ok(Response::new());
        }
        log_push(Sent {
            from: info.sender.to_string(),
            to: env.contract.address.to_string(),
            msg: msg.clone(),
            funds: info.funds,
        });
        let data = (self.respond)(&msg, deps.storage, &env)?;
        let mut r = Response::new();
        if let Some(d) = data {
            r = r.set_data(Binary::from(d.to_string().into_bytes()));
        }
        Ok(r)
    }
    fn instantiate(&self, _: DepsMut, _: Env, _: MessageInfo, _: Vec<u8>) -> AnyResult<Response<Custom>> {
        Ok(Response::new())
    }
    fn query(&self, deps: Deps, env: Env, msg: Vec<u8>) -> AnyResult<Binary> {
        let msg: Value = serde_json::from_slice(&msg)?;
        if let Some(k) = msg["peek"].as_str() {
            return Ok(Binary::from(programmed(deps.storage, k).to_string().into_bytes()));
        }
        Ok(Binary::from((self.answer)(&msg, deps.storage, &env)?.to_string().into_bytes()))
    }
    fn sudo(&self, _: DepsMut, _: Env, _: Vec<u8>) -> AnyResult<Response<Custom>> {
        Err(anyhow!("no sudo"))
    }
    fn reply(&self, _: DepsMut, _: Env, _: Reply) -> AnyResult<Response<Custom>> {
        Err(anyhow!("no reply"))
    }
    fn migrate(&self, _: DepsMut, _: Env, _: Vec<u8>) -> AnyResult<Response<Custom>> {
        Err(anyhow!("no migrate"))
    }
}

/// Reads a programmed value of a peer's storage.
pub fn programmed(storage: &dyn Storage, key: &str) -> Value {
    storage.get(key.as_bytes()).map_or(Value::Null, |v| serde_json::from_slice(&v).expect("json"))
}

#[derive(Clone)]
pub struct Snapshot {
    mem: Arc<Map>,
    block: BlockInfo,
}

pub struct World {
    pub app: TheApp,
    mem: Mem,
    pub names: BTreeMap<String, Addr>,
}

#[derive(Debug)]
pub struct Outcome {
    pub sent: Vec<Sent>,
    pub events: Vec<cosmwasm_std::Event>,
    pub data: Option<Binary>,
}

pub const HEIGHT0: u64 = 5_000_000_000;
pub const TIME0: u64 = 1_700_000_000;

impl World {
    pub fn new(balances: &[(&str, &str, u128)]) -> Self {
        let mem = Mem(Rc::new(RefCell::new(Arc::new(Map::new()))));
        let app = AppBuilder::new_custom()
            .with_storage(mem.clone())
            .with_custom(CustomSink)
            .build(|router, _, storage| {
                let mut per: BTreeMap<&str, Vec<Coin>> = BTreeMap::new();
                for (who, denom, amount) in balances {
                    per.entry(who).or_default().push(cosmwasm_std::coin(*amount, *denom));
                }
                for (who, coins) in per {
                    router.bank.init_balance(storage, &Addr::unchecked(who), coins).expect("balance");
                }
            });
        let mut w = World { app, mem, names: BTreeMap::new() };
        w.set_block(HEIGHT0, TIME0);
        w
    }

    pub fn set_block(&mut self, height: u64, time: u64) {
        self.set_block_at(height, Timestamp::from_seconds(time));
    }

    pub fn set_block_at(&mut self, height: u64, time: Timestamp) {
        self.app.set_block(BlockInfo {
            height,
            time,
            chain_id: "axelar-verif".into(),
        });
    }

    pub fn snapshot(&self) -> Snapshot {
        Snapshot { mem: self.mem.0.borrow().clone(), block: self.app.block_info() }
    }

    pub fn restore(&mut self, s: &Snapshot) {
        *self.mem.0.borrow_mut() = s.mem.clone();
        self.app.set_block(s.block.clone());
    }

    /// Stores and instantiates a contract under an abstract name.
    pub fn add(&mut self, name: &str, c: Box<dyn Contract<Custom>>, init: &Value) -> AnyResult<Addr> {
        let code = self.app.store_code(c);
        let a = self.app.instantiate_contract(code, Addr::unchecked("owner"), &RawJson(init), &[], name, None)?;
        self.names.insert(name.to_string(), a.clone());
        Ok(a)
    }

    /// Stores a contract's code, to be instantiated any number of times.
    pub fn store(&mut self, c: Box<dyn Contract<Custom>>) -> u64 {
        self.app.store_code(c)
    }

    /// Instantiates stored code (which no name stands for).
    pub fn deploy(&mut self, code: u64, init: &Value) -> AnyResult<Addr> {
        let app = &mut self.app;
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            app.instantiate_contract(code, Addr::unchecked("owner"), &RawJson(init), &[], "x", None)
        }))
        .unwrap_or_else(|_| Err(anyhow!("panic")))
    }

    /// State of the harness's own, kept and restored with everything else.
    pub fn raw_get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.mem.get(key)
    }
    pub fn raw_set(&mut self, key: &[u8], value: &[u8]) {
        self.mem.set(key, value)
    }

    /// The address an abstract name stands for: a contract's if one was added, else an account of that name.
    pub fn addr(&self, name: &str) -> String {
        self.names.get(name).map_or_else(|| name.to_string(), |a| a.to_string())
    }

    pub fn name_of(&self, addr: &str) -> String {
        self.names
            .iter()
            .find(|(_, a)| a.as_str() == addr)
            .map_or_else(|| addr.to_string(), |(n, _)| n.clone())
    }

    pub fn exec(&mut self, sender: &str, to: &str, msg: &Value, funds: &[Coin]) -> AnyResult<Outcome> {
        let m = CosmosMsg::Wasm(WasmMsg::Execute {
            contract_addr: self.addr(to),
            msg: Binary::from(msg.to_string().into_bytes()),
            funds: funds.to_vec(),
        });
        LOG.with(|l| l.borrow_mut().clear());
        let sender = Addr::unchecked(self.addr(sender));
        let app = &mut self.app;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| app.execute(sender, m)));
        let sent = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
        match r {
            Ok(Ok(r)) => {
                let data = match &r.data {
                    Some(d) => cw_utils::parse_execute_response_data(d).map_err(|e| anyhow!("{e}"))?.data,
                    None => None,
                };
                Ok(Outcome { sent, events: r.events, data })
            }
            Ok(Err(e)) => Err(anyhow!("{e:#}")),
            Err(p) => {
                let text = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                Err(anyhow!("panic: {text}"))
            }
        }
    }

    pub fn query(&self, to: &str, msg: &Value) -> AnyResult<Value> {
        let raw = serde_json::to_vec(&QueryRequest::<Empty>::Wasm(WasmQuery::Smart {
            contract_addr: self.addr(to),
            msg: Binary::from(msg.to_string().into_bytes()),
        }))?;
        let app = &self.app;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| app.raw_query(&raw)))
            .map_err(|_| anyhow!("panic in query"))?;
        let bin = r
            .into_result()
            .map_err(|e| anyhow!("{e}"))?
            .into_result()
            .map_err(|e| anyhow!(e))?;
        Ok(serde_json::from_slice(&bin)?)
    }

    /// Programs a peer.
    pub fn program(&mut self, peer: &str, values: Value) {
        self.exec("harness", peer, &json!({ "set": values }), &[]).expect("programming a peer");
    }

    /// What a peer was last programmed with.
    pub fn peek(&self, peer: &str, key: &str) -> Value {
        self.query(peer, &json!({ "peek": key })).expect("peek")
    }

    pub fn balance(&self, who: &str, denom: &str) -> u128 {
        self.app.wrap().query_balance(self.addr(who), denom).expect("balance").amount.u128()
    }
}

/// What neighbours were sent besides messages of the expected kind, or along with money.
pub fn others(w: &World, o: &Outcome, expected: &[(&str, &str)]) -> Vec<Value> {
    o.sent
        .iter()
        .filter(|s| {
            let to = w.name_of(&s.to);
            let known = s.msg.as_object().map_or(false, |m| (to == "CUSTOM" || m.len() == 1) && expected.iter().any(|(t, k)| (*t == to || *t == "*") && m.contains_key(*k)));
            !known || !s.funds.is_empty()
        })
        .map(|s| json!({"to": w.name_of(&s.to), "msg": s.msg, "funds": s.funds}))
        .collect()
}

/// Adds them to what is reported, if there are any.
pub fn with_others(mut out: Value, w: &World, o: &Outcome, expected: &[(&str, &str)]) -> Value {
    let l = others(w, o, expected);
    if !l.is_empty() {
        out = json!({"other": l, "rest": out});
    }
    out
}

/// Sends already-built JSON as a message.
pub struct RawJson<'a>(pub &'a Value);
impl serde::Serialize for RawJson<'_> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.serialize(s)
    }
}
impl std::fmt::Debug for RawJson<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}

/// The attributes of a contract event (without the address the simulator adds).
pub fn attrs(e: &cosmwasm_std::Event) -> BTreeMap<String, String> {
    e.attributes
        .iter()
        .filter(|a| a.key != "_contract_addr" && a.key != "_contract_address")
        .map(|a| (a.key.clone(), a.value.clone()))
        .collect()
}
