#![cfg_attr(not(feature = "native"), no_std)]
#![allow(clippy::all)]
extern crate alloc;
#[macro_use]
#[path = "../../../harness/src/rt.rs"]
pub mod rt;
pub mod fake;
pub mod port;
#[path = "../../../harness/src/spec.rs"]
pub mod spec;
