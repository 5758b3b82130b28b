//! Durations as a number and one unit.
use std::time::Duration;

use serde::{de::Error, Deserialize, Deserializer, Serializer};

pub fn serialize<S: Serializer>(d: &Duration, s: S) -> Result<S::Ok, S::Error> {
    s.serialize_str(&format!("{}us", d.as_micros()))
}

pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Duration, D::Error> {
    let text = String::deserialize(d)?;
    let at = text.find(|c: char| !c.is_ascii_digit()).ok_or_else(|| D::Error::custom("no unit"))?;
    let n: u64 = text[..at].parse().map_err(D::Error::custom)?;
    match text[at..].trim() {
        "us" => Ok(Duration::from_micros(n)),
        "ms" => Ok(Duration::from_millis(n)),
        "s" => Ok(Duration::from_secs(n)),
        u => Err(D::Error::custom(format!("unit {u}"))),
    }
}
