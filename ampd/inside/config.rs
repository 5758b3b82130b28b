//! The configuration, without the files it is read from.
use crate::{broadcaster, commands::ServiceRegistryConfig, handlers, tofnd, url::Url};

#[derive(Debug)]
pub struct Config {
    pub tm_jsonrpc: Url,
    pub tm_grpc: Url,
    pub event_buffer_cap: usize,
    pub broadcast: broadcaster::Config,
    pub handlers: Vec<handlers::config::Config>,
    pub tofnd_config: tofnd::Config,
    pub service_registry: ServiceRegistryConfig,
}
