//! Contracts on zkevm_opcode_defs and the harnesses that discharge them (see /verif/DESIGN.md).
#![cfg_attr(kani, feature(allocator_api))]
#![allow(dead_code, unused_imports)]
#[macro_use]
pub mod src;
pub mod dense;
pub mod real;
pub mod spec;

#[cfg(feature = "tables")]
#[allow(long_running_const_eval)]
pub mod tables {
    include!(concat!(env!("VP_GEN_DIR"), "/tables.rs"));
}

pub mod props;
