//! Contracts assumed of dependencies, discharged against their real code.
#![allow(dead_code, unused)]
pub mod dep;
