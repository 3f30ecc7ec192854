/// Default Account state extension instructions
pub mod instruction;

/// Default Account state extension processor
pub mod processor;

#[deprecated(
    since = "9.1.0",
    note = "Use spl_token_2022_interface instead and remove spl_token_2022 as a dependency"
)]
pub use spl_token_2022_interface::extension::default_account_state::DefaultAccountState;
