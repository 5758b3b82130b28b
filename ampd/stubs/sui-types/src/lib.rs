//! Addresses and transaction digests, with the texts they have in JSON.
pub mod base_types {
    use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
    use std::fmt;

    pub use crate::digests::TransactionDigest;

    #[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct SuiAddress([u8; 32]);

    impl SuiAddress {
        pub fn from_bytes(bytes: impl AsRef<[u8]>) -> Result<Self, String> {
            bytes.as_ref().try_into().map(Self).map_err(|_| "invalid length".to_string())
        }
    }

    impl AsRef<[u8]> for SuiAddress {
        fn as_ref(&self) -> &[u8] {
            &self.0
        }
    }

    impl std::str::FromStr for SuiAddress {
        type Err = String;
        fn from_str(s: &str) -> Result<Self, String> {
            let bytes = hex::decode(s.strip_prefix("0x").unwrap_or(s)).map_err(|e| e.to_string())?;
            Self::from_bytes(bytes)
        }
    }

    impl fmt::Display for SuiAddress {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "0x{}", hex::encode(self.0))
        }
    }

    impl fmt::Debug for SuiAddress {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{self}")
        }
    }

    impl Serialize for SuiAddress {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.collect_str(self)
        }
    }

    impl<'de> Deserialize<'de> for SuiAddress {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            String::deserialize(d)?.parse().map_err(de::Error::custom)
        }
    }
}

pub mod digests {
    use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
    use std::fmt;

    #[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct TransactionDigest([u8; 32]);

    impl TransactionDigest {
        pub const fn new(bytes: [u8; 32]) -> Self {
            Self(bytes)
        }

        pub fn inner(&self) -> &[u8; 32] {
            &self.0
        }

        pub fn base58_encode(&self) -> String {
            bs58::encode(self.0).into_string()
        }
    }

    impl std::str::FromStr for TransactionDigest {
        type Err = String;
        fn from_str(s: &str) -> Result<Self, String> {
            let bytes = bs58::decode(s).into_vec().map_err(|e| e.to_string())?;
            bytes.try_into().map(Self).map_err(|_| "Invalid digest length. Expected 32 bytes".to_string())
        }
    }

    impl fmt::Display for TransactionDigest {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str(&self.base58_encode())
        }
    }

    impl fmt::Debug for TransactionDigest {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "TransactionDigest({self})")
        }
    }

    impl fmt::LowerHex for TransactionDigest {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            if f.alternate() {
                f.write_str("0x")?;
            }
            f.write_str(&hex::encode(self.0))
        }
    }

    impl Serialize for TransactionDigest {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.collect_str(self)
        }
    }

    impl<'de> Deserialize<'de> for TransactionDigest {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            String::deserialize(d)?.parse().map_err(de::Error::custom)
        }
    }
}
