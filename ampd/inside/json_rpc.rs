//! Requests to the simulated node of the source chain.
use std::fmt::Debug;

use async_trait::async_trait;
use error_stack::Report;
use ethers::providers::{JsonRpcClient, ProviderError};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;

use crate::url::Url;

type Result<T> = error_stack::Result<T, ProviderError>;

pub struct Client<P>
where
    P: JsonRpcClient,
{
    provider: P,
}

impl<P> Client<P>
where
    P: JsonRpcClient,
{
    pub async fn request<T, R>(&self, method: &str, params: T) -> Result<R>
    where
        T: Debug + Serialize + Send + Sync,
        R: DeserializeOwned + Send,
    {
        self.provider.request(method, params).await.map_err(Into::into).map_err(Report::from)
    }
}

#[derive(Debug)]
pub struct Node;

/// A Sui node knows its transactions by their digests, and answers for several if they differ.
fn sui(method: &str, p: &[Value]) -> Option<Value> {
    let events = p.get(1)?.get("showEvents")? == true;
    let one = |digest: &Value| {
        let mut tx = sim::with(|s| s.rpc.get(&format!("sui {}", digest.as_str()?)).cloned())?;
        if !events {
            tx.as_object_mut()?.remove("events");
        }
        Some(tx)
    };
    let on = sim::with(|s| s.rpc.contains_key("sui"));
    match (method, p.get(0)?) {
        ("sui_getTransactionBlock", digest) if on => one(digest),
        ("sui_multiGetTransactionBlocks", Value::Array(all)) if on => {
            let unique = all.iter().enumerate().all(|(i, d)| !all[..i].contains(d));
            // what it does not know it leaves out
            let known = |d: &Value| one(d).filter(|tx| tx.get("unknown").is_none());
            Some(Value::Array(all.iter().rev().filter_map(known).collect())).filter(|_| unique)
        }
        _ => None,
    }
}

#[async_trait]
impl JsonRpcClient for Node {
    type Error = ProviderError;

    async fn request<T, R>(&self, method: &str, params: T) -> std::result::Result<R, ProviderError>
    where
        T: Debug + Serialize + Send + Sync,
        R: DeserializeOwned + Send,
    {
        let key = format!("{method} {}", serde_json::to_string(&params).expect("parameters"));
        tokio::turns(sim::turns()).await;
        let answer = match serde_json::to_value(&params).expect("parameters") {
            Value::Array(p) if method.starts_with("sui_") => sui(method, &p),
            _ => sim::with(|s| s.rpc.get(&key).cloned()),
        };
        match answer {
            Some(v) => serde_json::from_value(v).map_err(ProviderError::from),
            None => Err(ProviderError::CustomError(format!("no answer to {key}"))),
        }
    }
}

impl Client<Node> {
    pub fn new_http(_: &Url) -> Result<Self> {
        Ok(Client { provider: Node })
    }
}
