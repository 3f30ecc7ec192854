//! This code was AUTOGENERATED using the kinobi library.
//! Please DO NOT EDIT THIS FILE, instead use visitors
//! to add features, then rerun kinobi to update it.
//!
//! [https://github.com/metaplex-foundation/kinobi]
//!

pub mod accounts;
pub mod errors;
pub mod instructions;
pub mod programs;
pub mod types;

pub(crate) use programs::*;
