//! A client of the simulated Axelar node.
use std::fmt;

use async_trait::async_trait;
use base64::{engine::general_purpose::STANDARD, Engine};
use tendermint::{abci, block::Height, Block, Header};

#[derive(Debug)]
pub struct Error;

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "the node does not answer")
    }
}

impl std::error::Error for Error {}

pub mod endpoint {
    pub mod block {
        #[derive(Clone, Debug, Default)]
        pub struct Response {
            pub block_id: (),
            pub block: tendermint::Block,
        }
    }

    pub mod block_results {
        use tendermint::abci::Event;

        #[derive(Clone, Debug, Default)]
        pub struct TxResult {
            pub events: Vec<Event>,
        }

        #[derive(Clone, Debug, Default)]
        pub struct Response {
            pub height: tendermint::block::Height,
            pub txs_results: Option<Vec<TxResult>>,
            pub begin_block_events: Option<Vec<Event>>,
            pub end_block_events: Option<Vec<Event>>,
        }
    }
}

#[async_trait]
pub trait Client {
    async fn latest_block(&self) -> Result<endpoint::block::Response, Error>;
    async fn block_results(&self, height: Height) -> Result<endpoint::block_results::Response, Error>;
}

#[derive(Clone, Debug)]
pub struct HttpClient;

impl HttpClient {
    pub fn new(_: &str) -> Result<Self, Error> {
        Ok(HttpClient)
    }
}

fn event((kind, attributes): &(String, Vec<(String, String)>)) -> abci::Event {
    abci::Event {
        kind: kind.clone(),
        attributes: attributes
            .iter()
            .map(|(k, v)| abci::EventAttribute { key: STANDARD.encode(k), value: STANDARD.encode(v), index: true })
            .collect(),
    }
}

#[async_trait]
impl Client for HttpClient {
    async fn latest_block(&self) -> Result<endpoint::block::Response, Error> {
        tokio::turns(sim::turns()).await;
        let (tip, down) = sim::with(|s| (s.tip, s.down));
        match down {
            true => Err(Error),
            false => Ok(endpoint::block::Response {
                block_id: (),
                block: Block { header: Header { height: Height::try_from(tip).map_err(|_| Error)? } },
            }),
        }
    }

    /// The events of a block, the first at its beginning, the last at its end and the rest in transactions.
    async fn block_results(&self, height: Height) -> Result<endpoint::block_results::Response, Error> {
        tokio::turns(sim::turns()).await;
        let h = height.value();
        if let Some((k, signal)) = sim::with(|s| s.raise_at) {
            if k == h {
                tokio::signal::raise(signal);
            }
        }
        if sim::with(|s| s.crash_at == Some(h)) {
            sim::with(|s| s.crashed = true);
            std::future::pending::<()>().await;
        }
        sim::with(|s| {
            if s.fail_at == Some(h) {
                s.sign_fails = true;
            }
            if s.broken.contains(&h) || h > s.tip || h == 0 || h as usize > s.blocks.len() {
                return Err(Error);
            }
            s.served.push(h);
            let mut all: Vec<_> = s.blocks[h as usize - 1].iter().map(event).collect();
            let last = if all.len() > 2 { all.pop() } else { None };
            let first = if all.len() > 1 { Some(all.remove(0)) } else { None };
            Ok(endpoint::block_results::Response {
                height,
                begin_block_events: first.map(|x| vec![x]),
                txs_results: Some(all.into_iter().map(|x| endpoint::block_results::TxResult { events: vec![x] }).collect()),
                end_block_events: last.map(|x| vec![x]),
            })
        })
    }
}
