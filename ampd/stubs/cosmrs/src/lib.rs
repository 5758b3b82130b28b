//! What the daemon uses of cosmrs: accounts, keys, messages.
use std::fmt;
use std::str::FromStr;

use bech32::{FromBase32, ToBase32, Variant};
use serde::{Deserialize, Deserializer, Serialize, Serializer};

pub type Gas = u64;

pub use cosmos_sdk_proto as proto;
pub use cosmos_sdk_proto::Any;

pub type Result<T> = eyre::Result<T>;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct AccountId {
    text: String,
    bytes: Vec<u8>,
}

impl AccountId {
    pub fn new(prefix: &str, bytes: &[u8]) -> Result<Self> {
        let text = bech32::encode(prefix, bytes.to_base32(), Variant::Bech32)?;
        Ok(AccountId { text, bytes: bytes.to_vec() })
    }

    pub fn to_bytes(&self) -> Vec<u8> {
        self.bytes.clone()
    }
}

impl AsRef<str> for AccountId {
    fn as_ref(&self) -> &str {
        &self.text
    }
}

impl fmt::Display for AccountId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.text)
    }
}

impl FromStr for AccountId {
    type Err = eyre::Report;

    fn from_str(s: &str) -> Result<Self> {
        let (_, data, variant) = bech32::decode(s)?;
        if variant != Variant::Bech32 || s.chars().any(|c| c.is_ascii_uppercase()) {
            eyre::bail!("invalid account {s}");
        }
        let bytes = Vec::<u8>::from_base32(&data)?;
        Ok(AccountId { text: s.to_string(), bytes })
    }
}

impl Serialize for AccountId {
    fn serialize<S: Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        s.serialize_str(&self.text)
    }
}

impl<'de> Deserialize<'de> for AccountId {
    fn deserialize<D: Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
        String::deserialize(d)?.parse().map_err(serde::de::Error::custom)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Denom(String);

impl AsRef<str> for Denom {
    fn as_ref(&self) -> &str {
        &self.0
    }
}

impl fmt::Display for Denom {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}

impl FromStr for Denom {
    type Err = eyre::Report;

    fn from_str(s: &str) -> Result<Self> {
        match s.chars().all(|c| c.is_ascii_alphanumeric() || c == '/') {
            true => Ok(Denom(s.to_string())),
            false => eyre::bail!("invalid denomination {s}"),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Coin {
    pub denom: Denom,
    pub amount: u128,
}

impl Coin {
    pub fn new(amount: u128, denom: &str) -> Result<Self> {
        Ok(Coin { denom: denom.parse()?, amount })
    }
}

pub mod tx {
    use cosmos_sdk_proto::cosmos::tx::v1beta1 as proto;
    use cosmos_sdk_proto::traits::Message;

    use super::{crypto::PublicKey, tendermint::chain::Id, Any, Coin, Gas, Result};

    pub trait Msg {
        fn into_any(self) -> Result<Any>;
    }

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Fee {
        pub amount: Vec<Coin>,
        pub gas_limit: Gas,
    }

    impl Fee {
        pub fn from_amount_and_gas(amount: Coin, gas: impl Into<Gas>) -> Self {
            Fee { amount: vec![amount], gas_limit: gas.into() }
        }
    }

    #[derive(Clone, Debug, Default)]
    pub struct BodyBuilder(proto::TxBody);

    impl BodyBuilder {
        pub fn new() -> Self {
            Self::default()
        }

        pub fn msgs(&mut self, msgs: impl IntoIterator<Item = Any>) -> &mut Self {
            self.0.messages.extend(msgs);
            self
        }

        pub fn msg(&mut self, msg: impl Into<Any>) -> &mut Self {
            self.msgs(vec![msg.into()])
        }

        pub fn memo(&mut self, memo: impl Into<String>) -> &mut Self {
            self.0.memo = memo.into();
            self
        }

        pub fn finish(&self) -> Body {
            Body(self.0.clone())
        }
    }

    #[derive(Clone, Debug)]
    pub struct Body(proto::TxBody);

    #[derive(Clone, Debug)]
    pub struct SignerInfo {
        public_key: Option<PublicKey>,
        sequence: u64,
    }

    impl SignerInfo {
        pub fn single_direct(public_key: Option<PublicKey>, sequence: u64) -> Self {
            SignerInfo { public_key, sequence }
        }

        pub fn auth_info(self, fee: Fee) -> AuthInfo {
            AuthInfo(proto::AuthInfo {
                public_key: self.public_key.map(|k| k.to_bytes()).unwrap_or_default(),
                sequence: self.sequence,
                fee_denoms: fee.amount.iter().map(|c| c.denom.to_string()).collect(),
                fee_amounts: fee.amount.iter().map(|c| c.amount).collect(),
                gas_limit: fee.gas_limit,
            })
        }
    }

    #[derive(Clone, Debug)]
    pub struct AuthInfo(proto::AuthInfo);

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct SignDoc {
        pub body_bytes: Vec<u8>,
        pub auth_info_bytes: Vec<u8>,
        pub chain_id: String,
        pub account_number: u64,
    }

    impl SignDoc {
        pub fn new(body: &Body, auth_info: &AuthInfo, chain_id: &Id, account_number: u64) -> Result<Self> {
            Ok(SignDoc {
                body_bytes: body.0.encode_to_vec(),
                auth_info_bytes: auth_info.0.encode_to_vec(),
                chain_id: chain_id.to_string(),
                account_number,
            })
        }

        pub fn into_bytes(self) -> Result<Vec<u8>> {
            let SignDoc { body_bytes, auth_info_bytes, chain_id, account_number } = self;
            Ok(proto::SignDoc { body_bytes, auth_info_bytes, chain_id, account_number }.encode_to_vec())
        }
    }
}

pub mod cosmwasm {
    use super::{tx::Msg, AccountId, Any, Coin, Result};

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct MsgExecuteContract {
        pub sender: AccountId,
        pub contract: AccountId,
        pub msg: Vec<u8>,
        pub funds: Vec<Coin>,
    }

    impl Msg for MsgExecuteContract {
        /// (JSON in place of protobuf)
        fn into_any(self) -> Result<Any> {
            let msg: serde_json::Value = serde_json::from_slice(&self.msg)?;
            let value = serde_json::json!({"sender": self.sender, "contract": self.contract, "msg": msg,
                "funds": self.funds.iter().map(|c| (c.amount.to_string(), c.denom.as_ref())).collect::<Vec<_>>()});
            Ok(Any { type_url: "/cosmwasm.wasm.v1.MsgExecuteContract".into(), value: value.to_string().into_bytes() })
        }
    }
}

pub mod tendermint {
    pub mod chain {
        use std::{fmt, str::FromStr};

        use serde::{Deserialize, Serialize};

        #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
        pub struct Id(String);

        impl FromStr for Id {
            type Err = eyre::Report;

            fn from_str(s: &str) -> eyre::Result<Self> {
                match s.is_empty() || s.len() > 50 {
                    true => eyre::bail!("length of the chain's name"),
                    false => Ok(Id(s.to_string())),
                }
            }
        }

        impl fmt::Display for Id {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(&self.0)
            }
        }
    }

    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub struct PublicKey(pub(crate) [u8; 32]);

    impl From<crypto::ed25519::VerificationKey> for PublicKey {
        fn from(k: crypto::ed25519::VerificationKey) -> Self {
            PublicKey(k.0)
        }
    }

    pub mod crypto {
        pub mod ed25519 {
            pub struct VerificationKey(pub(crate) [u8; 32]);

            impl TryFrom<&[u8]> for VerificationKey {
                type Error = String;

                fn try_from(b: &[u8]) -> Result<Self, String> {
                    b.try_into().map(VerificationKey).map_err(|_| "invalid key".to_string())
                }
            }
        }
    }
}

pub mod crypto {
    use k256::ecdsa::VerifyingKey;
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    use sha2::{Digest, Sha256};

    use super::{AccountId, Result};

    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub enum PublicKey {
        Ecdsa(VerifyingKey),
        Ed25519([u8; 32]),
    }

    impl PublicKey {
        pub fn to_bytes(&self) -> Vec<u8> {
            match self {
                PublicKey::Ecdsa(k) => k.to_encoded_point(true).as_bytes().to_vec(),
                PublicKey::Ed25519(k) => k.to_vec(),
            }
        }

        pub fn account_id(&self, prefix: &str) -> Result<AccountId> {
            let hash = ripemd::Ripemd160::digest(Sha256::digest(self.to_bytes()));
            AccountId::new(prefix, &hash)
        }
    }

    impl From<VerifyingKey> for PublicKey {
        fn from(k: VerifyingKey) -> Self {
            PublicKey::Ecdsa(k)
        }
    }

    impl From<&VerifyingKey> for PublicKey {
        fn from(k: &VerifyingKey) -> Self {
            PublicKey::Ecdsa(*k)
        }
    }

    impl From<super::tendermint::PublicKey> for PublicKey {
        fn from(k: super::tendermint::PublicKey) -> Self {
            PublicKey::Ed25519(k.0)
        }
    }

    impl Serialize for PublicKey {
        fn serialize<S: Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
            s.serialize_str(&hex::encode(self.to_bytes()))
        }
    }

    impl<'de> Deserialize<'de> for PublicKey {
        fn deserialize<D: Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
            let b = hex::decode(String::deserialize(d)?).map_err(serde::de::Error::custom)?;
            match <[u8; 32]>::try_from(b.as_slice()) {
                Ok(k) => Ok(PublicKey::Ed25519(k)),
                Err(_) => VerifyingKey::from_sec1_bytes(&b).map(PublicKey::Ecdsa).map_err(serde::de::Error::custom),
            }
        }
    }
}
