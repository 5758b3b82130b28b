//! What a Sui node answers when asked for transactions, as far as events go.
use move_core_types::language_storage::StructTag;
use serde::{de, Deserialize, Deserializer, Serialize};
use sui_types::{base_types::SuiAddress, digests::TransactionDigest};

/// numbers are texts
fn number<'de, D: Deserializer<'de>>(d: D) -> Result<u64, D::Error> {
    String::deserialize(d)?.parse().map_err(de::Error::custom)
}

fn maybe_number<'de, D: Deserializer<'de>>(d: D) -> Result<Option<u64>, D::Error> {
    Option::<String>::deserialize(d)?.map(|x| x.parse().map_err(de::Error::custom)).transpose()
}

#[derive(Clone, Debug, PartialEq, Eq, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct EventID {
    pub tx_digest: TransactionDigest,
    #[serde(deserialize_with = "number")]
    pub event_seq: u64,
}

#[derive(Clone, Debug, PartialEq, Eq, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct SuiEvent {
    pub id: EventID,
    pub package_id: SuiAddress,
    pub transaction_module: String,
    pub sender: SuiAddress,
    #[serde(rename = "type")]
    pub type_: StructTag,
    pub parsed_json: serde_json::Value,
    #[serde(default, deserialize_with = "maybe_number")]
    pub timestamp_ms: Option<u64>,
}

#[derive(Clone, Debug, PartialEq, Eq, Default, Deserialize)]
#[serde(transparent)]
pub struct SuiTransactionBlockEvents {
    pub data: Vec<SuiEvent>,
}

#[derive(Clone, Debug, PartialEq, Eq, Default, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct SuiTransactionBlockResponse {
    pub digest: TransactionDigest,
    #[serde(default)]
    pub events: Option<SuiTransactionBlockEvents>,
    #[serde(default, deserialize_with = "maybe_number")]
    pub timestamp_ms: Option<u64>,
    /// of the final block it is in
    #[serde(default, deserialize_with = "maybe_number")]
    pub checkpoint: Option<u64>,
    #[serde(default)]
    pub errors: Vec<String>,
}

#[derive(Clone, Debug, PartialEq, Eq, Default, Serialize)]
#[serde(rename_all = "camelCase")]
pub struct SuiTransactionBlockResponseOptions {
    pub show_input: bool,
    pub show_raw_input: bool,
    pub show_effects: bool,
    pub show_events: bool,
    pub show_object_changes: bool,
    pub show_balance_changes: bool,
}

impl SuiTransactionBlockResponseOptions {
    pub fn new() -> Self {
        Self::default()
    }

    pub fn with_events(mut self) -> Self {
        self.show_events = true;
        self
    }
}
