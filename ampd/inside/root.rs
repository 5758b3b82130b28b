// The crate's root, and the harness's way into its parts.
include!("lib.rs");

pub mod entry;
