//! What the daemon uses of tendermint-rs.
pub mod abci {
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct EventAttribute {
        pub key: String,
        pub value: String,
        pub index: bool,
    }

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Event {
        pub kind: String,
        pub attributes: Vec<EventAttribute>,
    }
}

pub mod block {
    use std::fmt;

    use serde::{Deserialize, Deserializer, Serialize, Serializer};

    #[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Height(u64);

    impl Default for Height {
        fn default() -> Self {
            Height(1)
        }
    }

    impl Height {
        pub fn value(&self) -> u64 {
            self.0
        }

        pub fn increment(self) -> Self {
            Height(self.0.checked_add(1).expect("height overflow"))
        }
    }

    impl fmt::Display for Height {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{}", self.0)
        }
    }

    impl From<u32> for Height {
        fn from(x: u32) -> Self {
            Height(x as u64)
        }
    }

    impl TryFrom<u64> for Height {
        type Error = String;

        fn try_from(x: u64) -> Result<Self, String> {
            i64::try_from(x).map(|_| Height(x)).map_err(|e| e.to_string())
        }
    }

    impl From<Height> for u64 {
        fn from(x: Height) -> u64 {
            x.0
        }
    }

    impl Serialize for Height {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.serialize_str(&self.0.to_string())
        }
    }

    impl<'de> Deserialize<'de> for Height {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            String::deserialize(d)?.parse().map(Height).map_err(serde::de::Error::custom)
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Header {
    pub height: block::Height,
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub header: Header,
}

impl Block {
    pub fn header(&self) -> &Header {
        &self.header
    }
}
