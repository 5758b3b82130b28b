//! The type of an event, without type parameters.
pub mod language_storage {
    use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
    use std::fmt;

    #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct StructTag {
        /// 64 digits
        pub address: String,
        pub module: String,
        pub name: String,
    }

    fn identifier(s: &str) -> bool {
        s.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
    }

    impl std::str::FromStr for StructTag {
        type Err = String;
        fn from_str(s: &str) -> Result<Self, String> {
            let parts: Vec<_> = s.split("::").collect();
            let [address, module, name] = parts[..] else { return Err(format!("unexpected {s}")) };
            let digits = address.strip_prefix("0x").ok_or_else(|| format!("unexpected {address}"))?;
            let good = (1..=64).contains(&digits.len()) && digits.chars().all(|c| c.is_ascii_hexdigit());
            if !good || !identifier(module) || !identifier(name) {
                return Err(format!("unexpected {s}"));
            }
            Ok(Self { address: format!("{:0>64}", digits.to_lowercase()), module: module.into(), name: name.into() })
        }
    }

    impl fmt::Display for StructTag {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "0x{}::{}::{}", self.address, self.module, self.name)
        }
    }

    impl Serialize for StructTag {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.collect_str(self)
        }
    }

    impl<'de> Deserialize<'de> for StructTag {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            String::deserialize(d)?.parse().map_err(de::Error::custom)
        }
    }
}
