#![cfg_attr(not(feature = "native"), no_std)]
#![allow(clippy::all)]
extern crate alloc;
extern crate app;
#[macro_use]
#[path = "../../../harness/src/rt.rs"]
pub mod rt;
pub mod cli;
#[path = "../../../port/harness/src/fake.rs"]
pub mod fake;
#[path = "../../../harness/src/spec.rs"]
pub mod spec;
