//! This code was AUTOGENERATED using the kinobi library.
//! Please DO NOT EDIT THIS FILE, instead use visitors
//! to add features, then rerun kinobi to update it.
//!
//! [https://github.com/metaplex-foundation/kinobi]
//!

pub(crate) mod r#authority_type;
pub(crate) mod r#authorization_data;
pub(crate) mod r#burn_args;
pub(crate) mod r#collection;
pub(crate) mod r#collection_details;
pub(crate) mod r#collection_details_toggle;
pub(crate) mod r#collection_toggle;
pub(crate) mod r#create_args;
pub(crate) mod r#creator;
pub(crate) mod r#data;
pub(crate) mod r#data_v2;
pub(crate) mod r#delegate_args;
pub(crate) mod r#escrow_authority;
pub(crate) mod r#holder_delegate_role;
pub(crate) mod r#key;
pub(crate) mod r#lock_args;
pub(crate) mod r#metadata_delegate_role;
pub(crate) mod r#migration_type;
pub(crate) mod r#mint_args;
pub(crate) mod r#mint_new_edition_from_master_edition_via_token_args;
pub(crate) mod r#payload;
pub(crate) mod r#payload_key;
pub(crate) mod r#payload_type;
pub(crate) mod r#print_args;
pub(crate) mod r#print_supply;
pub(crate) mod r#programmable_config;
pub(crate) mod r#proof_info;
pub(crate) mod r#reservation;
pub(crate) mod r#reservation_v1;
pub(crate) mod r#revoke_args;
pub(crate) mod r#rule_set_toggle;
pub(crate) mod r#seeds_vec;
pub(crate) mod r#set_collection_size_args;
pub(crate) mod r#token_delegate_role;
pub(crate) mod r#token_standard;
pub(crate) mod r#token_state;
pub(crate) mod r#transfer_args;
pub(crate) mod r#unlock_args;
pub(crate) mod r#update_args;
pub(crate) mod r#use_args;
pub(crate) mod r#use_method;
pub(crate) mod r#uses;
pub(crate) mod r#uses_toggle;
pub(crate) mod r#verification_args;

pub use self::r#authority_type::*;
pub use self::r#authorization_data::*;
pub use self::r#burn_args::*;
pub use self::r#collection::*;
pub use self::r#collection_details::*;
pub use self::r#collection_details_toggle::*;
pub use self::r#collection_toggle::*;
pub use self::r#create_args::*;
pub use self::r#creator::*;
pub use self::r#data::*;
pub use self::r#data_v2::*;
pub use self::r#delegate_args::*;
pub use self::r#escrow_authority::*;
pub use self::r#holder_delegate_role::*;
pub use self::r#key::*;
pub use self::r#lock_args::*;
pub use self::r#metadata_delegate_role::*;
pub use self::r#migration_type::*;
pub use self::r#mint_args::*;
pub use self::r#mint_new_edition_from_master_edition_via_token_args::*;
pub use self::r#payload::*;
pub use self::r#payload_key::*;
pub use self::r#payload_type::*;
pub use self::r#print_args::*;
pub use self::r#print_supply::*;
pub use self::r#programmable_config::*;
pub use self::r#proof_info::*;
pub use self::r#reservation::*;
pub use self::r#reservation_v1::*;
pub use self::r#revoke_args::*;
pub use self::r#rule_set_toggle::*;
pub use self::r#seeds_vec::*;
pub use self::r#set_collection_size_args::*;
pub use self::r#token_delegate_role::*;
pub use self::r#token_standard::*;
pub use self::r#token_state::*;
pub use self::r#transfer_args::*;
pub use self::r#unlock_args::*;
pub use self::r#update_args::*;
pub use self::r#use_args::*;
pub use self::r#use_method::*;
pub use self::r#uses::*;
pub use self::r#uses_toggle::*;
pub use self::r#verification_args::*;
