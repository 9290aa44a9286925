#![cfg_attr(not(feature = "native"), no_std)]
#![allow(clippy::all)]
extern crate alloc;
#[macro_use]
pub mod rt;
pub mod big;
pub mod bus;
pub mod ops;
pub mod data;
pub mod dev;
pub mod hist;
pub mod text;
pub mod misc;
pub mod recv;
pub mod resp;
pub mod spec;
pub mod sync;
pub mod time;
pub mod tx;
pub mod world;
