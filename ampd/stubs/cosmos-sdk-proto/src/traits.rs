//! Values one after the other, each in a length-prefixed form.
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub struct DecodeError;

impl fmt::Display for DecodeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("cannot be decoded")
    }
}

impl std::error::Error for DecodeError {}

#[derive(Clone, Debug, PartialEq)]
pub enum EncodeError {}

impl fmt::Display for EncodeError {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        match *self {}
    }
}

impl std::error::Error for EncodeError {}

pub trait Value: Sized {
    fn put(&self, out: &mut Vec<u8>);
    fn take(from: &mut &[u8]) -> Result<Self, DecodeError>;
}

impl Value for u64 {
    fn put(&self, out: &mut Vec<u8>) {
        u128::from(*self).put(out)
    }
    fn take(from: &mut &[u8]) -> Result<Self, DecodeError> {
        u128::take(from)?.try_into().map_err(|_| DecodeError)
    }
}

impl Value for u128 {
    fn put(&self, out: &mut Vec<u8>) {
        out.extend(self.to_be_bytes())
    }
    fn take(from: &mut &[u8]) -> Result<Self, DecodeError> {
        let b = from.get(..16).ok_or(DecodeError)?;
        *from = &from[16..];
        Ok(u128::from_be_bytes(b.try_into().expect("16 bytes")))
    }
}

impl Value for Vec<u8> {
    fn put(&self, out: &mut Vec<u8>) {
        (self.len() as u64).put(out);
        out.extend(self)
    }
    fn take(from: &mut &[u8]) -> Result<Self, DecodeError> {
        let n = u64::take(from)? as usize;
        let b = from.get(..n).ok_or(DecodeError)?.to_vec();
        *from = &from[n..];
        Ok(b)
    }
}

impl Value for String {
    fn put(&self, out: &mut Vec<u8>) {
        self.as_bytes().to_vec().put(out)
    }
    fn take(from: &mut &[u8]) -> Result<Self, DecodeError> {
        String::from_utf8(Vec::take(from)?).map_err(|_| DecodeError)
    }
}

/// of values that are not bytes
pub fn put_all<T: Value>(xs: &[T], out: &mut Vec<u8>) {
    (xs.len() as u64).put(out);
    xs.iter().for_each(|x| x.put(out))
}

pub fn take_all<T: Value>(from: &mut &[u8]) -> Result<Vec<T>, DecodeError> {
    let n = u64::take(from)?;
    (0..n).map(|_| T::take(from)).collect()
}

macro_rules! lists {
    ($($t:ty),*) => { $(
        impl Value for Vec<$t> {
            fn put(&self, out: &mut Vec<u8>) {
                put_all(self, out)
            }
            fn take(from: &mut &[u8]) -> Result<Self, DecodeError> {
                take_all(from)
            }
        }
    )* };
}
lists!(Vec<u8>, String, u128, crate::Any);

impl Value for Option<crate::Any> {
    fn put(&self, out: &mut Vec<u8>) {
        put_all(&self.iter().cloned().collect::<Vec<_>>(), out)
    }
    fn take(from: &mut &[u8]) -> Result<Self, DecodeError> {
        Ok(take_all(from)?.pop())
    }
}

pub trait Message: Value {
    fn encode_to_vec(&self) -> Vec<u8> {
        let mut out = vec![];
        self.put(&mut out);
        out
    }
    fn decode(mut bytes: &[u8]) -> Result<Self, DecodeError> {
        let x = Self::take(&mut bytes)?;
        match bytes.is_empty() {
            true => Ok(x),
            false => Err(DecodeError),
        }
    }
}

pub trait MessageExt: Message {
    fn to_bytes(&self) -> Result<Vec<u8>, EncodeError>;
}

impl<M: Message> MessageExt for M {
    fn to_bytes(&self) -> Result<Vec<u8>, EncodeError> {
        Ok(self.encode_to_vec())
    }
}

macro_rules! message {
    ($t:ident { $($f:ident),* }) => {
        impl $crate::traits::Value for $t {
            fn put(&self, out: &mut Vec<u8>) {
                $($crate::traits::Value::put(&self.$f, out);)*
            }
            fn take(from: &mut &[u8]) -> Result<Self, $crate::traits::DecodeError> {
                Ok($t { $($f: $crate::traits::Value::take(from)?,)* })
            }
        }
        impl $crate::traits::Message for $t {}
    };
}
pub(crate) use message;
