//! Generic Token Account, copied from `spl_token::state`
#![deprecated(
    since = "9.1.0",
    note = "Use spl_token_2022_interface instead and remove spl_token_2022 as a dependency"
)]
pub use spl_token_2022_interface::generic_token_account::*;
