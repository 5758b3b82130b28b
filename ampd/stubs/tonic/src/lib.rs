//! The connection to the signing daemon, and that daemon itself.
use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Code {
    Internal,
    NotFound,
    Unavailable,
}

#[derive(Clone, Debug)]
pub struct Status(Code, String);

impl Status {
    pub fn internal(s: impl Into<String>) -> Self {
        Status(Code::Internal, s.into())
    }

    pub fn not_found(s: impl Into<String>) -> Self {
        Status(Code::NotFound, s.into())
    }

    pub fn unavailable(s: impl Into<String>) -> Self {
        Status(Code::Unavailable, s.into())
    }

    pub fn code(&self) -> Code {
        self.0
    }
}

impl fmt::Display for Status {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.1)
    }
}

impl std::error::Error for Status {}

pub struct Response<T>(pub T);

impl<T> Response<T> {
    pub fn into_inner(self) -> T {
        self.0
    }
}

pub mod transport {
    pub struct Channel;
}

/// The messages of tofnd's protocol.
#[macro_export]
macro_rules! include_proto {
    ($_:literal) => {
        pub use ::tonic::tofnd::*;
    };
}

pub mod tofnd {
    pub struct KeygenRequest {
        pub key_uid: String,
        pub party_uid: String,
    }

    pub struct KeygenResponse {
        pub keygen_response: Option<keygen_response::KeygenResponse>,
    }

    pub mod keygen_response {
        pub enum KeygenResponse {
            PubKey(Vec<u8>),
            Error(String),
        }
    }

    pub struct SignRequest {
        pub key_uid: String,
        pub msg_to_sign: Vec<u8>,
        pub party_uid: String,
        pub pub_key: Vec<u8>,
    }

    pub struct SignResponse {
        pub sign_response: Option<sign_response::SignResponse>,
    }

    pub mod sign_response {
        pub enum SignResponse {
            Signature(Vec<u8>),
            Error(String),
        }
    }

    pub mod multisig_client {
        use std::marker::PhantomData;

        use k256::ecdsa::{signature::hazmat::PrehashSigner, Signature as EcdsaSignature, SigningKey};

        use super::*;
        use crate::{Response, Status};

        pub struct MultisigClient<C>(PhantomData<C>);

        impl<C> MultisigClient<C> {
            pub async fn connect(_: String) -> Result<Self, Status> {
                Ok(MultisigClient(PhantomData))
            }

            pub async fn keygen(&mut self, _: KeygenRequest) -> Result<Response<KeygenResponse>, Status> {
                sim::with(|s| {
                    s.keygens += 1;
                    let key = SigningKey::from_slice(&s.keys[0]).expect("key");
                    let k = key.verifying_key().to_encoded_point(true).as_bytes().to_vec();
                    Ok(Response(KeygenResponse { keygen_response: Some(keygen_response::KeygenResponse::PubKey(k)) }))
                })
            }

            /// Signs with the key asked for, if it is one of ours.
            pub async fn sign(&mut self, r: SignRequest) -> Result<Response<SignResponse>, Status> {
                ::tokio::turns(sim::turns()).await;
                use sign_response::SignResponse::*;
                sim::with(|s| {
                    // transactions are signed with the key that has our name, the answers of the handlers with others
                    if if r.key_uid == "axelar" { s.locked } else { s.sign_fails } {
                        return Err(Status::internal("no answer"));
                    }
                    s.signed.push((r.key_uid.clone(), r.msg_to_sign.clone(), r.pub_key.clone()));
                    let key = s.keys.iter().filter_map(|k| SigningKey::from_slice(k).ok()).find(|k| {
                        k.verifying_key().to_encoded_point(true).as_bytes() == r.pub_key
                    });
                    let answer = match key.map(|k| k.sign_prehash(&r.msg_to_sign)) {
                        Some(Ok(s)) => {
                            let s: EcdsaSignature = s;
                            Signature(s.to_der().as_bytes().to_vec())
                        }
                        _ => Error("no such key".into()),
                    };
                    Ok(Response(SignResponse { sign_response: Some(answer) }))
                })
            }
        }
    }
}
