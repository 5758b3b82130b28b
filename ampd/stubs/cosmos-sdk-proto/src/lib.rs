//! The messages of the Axelar node, in an encoding of our own, and that node, simulated.
mod node;
pub mod traits;

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Any {
    pub type_url: String,
    pub value: Vec<u8>,
}
traits::message!(Any { type_url, value });

pub mod cosmos {
    pub mod auth {
        pub mod v1beta1 {
            use crate::{traits::message, Any};

            #[derive(Clone, Debug, Default, PartialEq, Eq)]
            pub struct BaseAccount {
                pub address: String,
                pub pub_key: Option<Any>,
                pub account_number: u64,
                pub sequence: u64,
            }
            message!(BaseAccount { address, pub_key, account_number, sequence });

            #[derive(Clone, Debug, Default, PartialEq)]
            pub struct QueryAccountRequest {
                pub address: String,
            }

            #[derive(Clone, Debug, Default, PartialEq)]
            pub struct QueryAccountResponse {
                pub account: Option<Any>,
            }

            pub mod query_client {
                pub use crate::node::QueryClient;
            }
        }
    }
    pub mod tx {
        pub mod v1beta1 {
            use crate::cosmos::base::abci::v1beta1::{GasInfo, TxResponse};
            use crate::traits::message;

            #[derive(Clone, Debug, Default, PartialEq, Eq)]
            pub struct TxRaw {
                pub body_bytes: Vec<u8>,
                pub auth_info_bytes: Vec<u8>,
                pub signatures: Vec<Vec<u8>>,
            }
            message!(TxRaw { body_bytes, auth_info_bytes, signatures });

            #[derive(Clone, Debug, Default, PartialEq, Eq)]
            pub struct SignDoc {
                pub body_bytes: Vec<u8>,
                pub auth_info_bytes: Vec<u8>,
                pub chain_id: String,
                pub account_number: u64,
            }
            message!(SignDoc { body_bytes, auth_info_bytes, chain_id, account_number });

            #[derive(Clone, Debug, Default, PartialEq, Eq)]
            pub struct TxBody {
                pub messages: Vec<crate::Any>,
                pub memo: String,
                pub timeout_height: u64,
            }
            message!(TxBody { messages, memo, timeout_height });

            /// Of a single signer.
            #[derive(Clone, Debug, Default, PartialEq, Eq)]
            pub struct AuthInfo {
                pub public_key: Vec<u8>,
                pub sequence: u64,
                pub fee_denoms: Vec<String>,
                pub fee_amounts: Vec<u128>,
                pub gas_limit: u64,
            }
            message!(AuthInfo { public_key, sequence, fee_denoms, fee_amounts, gas_limit });

            #[derive(Clone, Copy, Debug, PartialEq, Eq)]
            #[repr(i32)]
            pub enum BroadcastMode {
                Unspecified = 0,
                Block = 1,
                Sync = 2,
                Async = 3,
            }

            #[derive(Clone, Debug, Default, PartialEq)]
            pub struct BroadcastTxRequest {
                pub tx_bytes: Vec<u8>,
                pub mode: i32,
            }

            #[derive(Clone, Debug, Default, PartialEq)]
            pub struct BroadcastTxResponse {
                pub tx_response: Option<TxResponse>,
            }

            #[derive(Clone, Debug, Default, PartialEq)]
            pub struct GetTxRequest {
                pub hash: String,
            }

            #[derive(Clone, Debug, Default, PartialEq)]
            pub struct GetTxResponse {
                pub tx: Option<()>,
                pub tx_response: Option<TxResponse>,
            }

            #[derive(Clone, Debug, Default, PartialEq)]
            pub struct SimulateRequest {
                pub tx: Option<()>,
                pub tx_bytes: Vec<u8>,
            }

            #[derive(Clone, Debug, Default, PartialEq)]
            pub struct SimulateResponse {
                pub gas_info: Option<GasInfo>,
                pub result: Option<()>,
            }

            pub mod service_client {
                pub use crate::node::ServiceClient;
            }
        }
    }
    pub mod base {
        pub mod abci {
            pub mod v1beta1 {
                #[derive(Clone, Debug, Default, PartialEq)]
                pub struct TxResponse {
                    pub height: i64,
                    pub txhash: String,
                    pub codespace: String,
                    pub code: u32,
                    pub data: String,
                    pub raw_log: String,
                    pub gas_wanted: i64,
                    pub gas_used: i64,
                }

                #[derive(Clone, Debug, Default, PartialEq)]
                pub struct GasInfo {
                    pub gas_wanted: u64,
                    pub gas_used: u64,
                }
            }
        }
        pub mod v1beta1 {
            #[derive(Clone, Debug, Default, PartialEq)]
            pub struct DecCoin {
                pub denom: String,
                pub amount: String,
            }
        }
    }
}
