//! This code was AUTOGENERATED using the kinobi library.
//! Please DO NOT EDIT THIS FILE, instead use visitors
//! to add features, then rerun kinobi to update it.
//!
//! [https://github.com/metaplex-foundation/kinobi]
//!

use crate::generated::types::AuthorizationData;
use crate::generated::types::CollectionDetailsToggle;
use crate::generated::types::CollectionToggle;
use crate::generated::types::Data;
use crate::generated::types::RuleSetToggle;
use crate::generated::types::TokenStandard;
use crate::generated::types::UsesToggle;
#[cfg(feature = "anchor")]
use anchor_lang::prelude::{AnchorDeserialize, AnchorSerialize};
#[cfg(not(feature = "anchor"))]
use borsh::{BorshDeserialize, BorshSerialize};
use solana_program::pubkey::Pubkey;

#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[cfg_attr(not(feature = "anchor"), derive(BorshSerialize, BorshDeserialize))]
#[cfg_attr(feature = "anchor", derive(AnchorSerialize, AnchorDeserialize))]
#[derive(Clone, Debug, Eq, PartialEq)]
pub enum UpdateArgs {
    V1 {
        new_update_authority: Option<Pubkey>,
        data: Option<Data>,
        primary_sale_happened: Option<bool>,
        is_mutable: Option<bool>,
        collection: CollectionToggle,
        collection_details: CollectionDetailsToggle,
        uses: UsesToggle,
        rule_set: RuleSetToggle,
        authorization_data: Option<AuthorizationData>,
    },
    AsUpdateAuthorityV2 {
        new_update_authority: Option<Pubkey>,
        data: Option<Data>,
        primary_sale_happened: Option<bool>,
        is_mutable: Option<bool>,
        collection: CollectionToggle,
        collection_details: CollectionDetailsToggle,
        uses: UsesToggle,
        rule_set: RuleSetToggle,
        token_standard: Option<TokenStandard>,
        authorization_data: Option<AuthorizationData>,
    },
    AsAuthorityItemDelegateV2 {
        new_update_authority: Option<Pubkey>,
        primary_sale_happened: Option<bool>,
        is_mutable: Option<bool>,
        token_standard: Option<TokenStandard>,
        authorization_data: Option<AuthorizationData>,
    },
    AsCollectionDelegateV2 {
        collection: CollectionToggle,
        authorization_data: Option<AuthorizationData>,
    },
    AsDataDelegateV2 {
        data: Option<Data>,
        authorization_data: Option<AuthorizationData>,
    },
    AsProgrammableConfigDelegateV2 {
        rule_set: RuleSetToggle,
        authorization_data: Option<AuthorizationData>,
    },
    AsDataItemDelegateV2 {
        data: Option<Data>,
        authorization_data: Option<AuthorizationData>,
    },
    AsCollectionItemDelegateV2 {
        collection: CollectionToggle,
        authorization_data: Option<AuthorizationData>,
    },
    AsProgrammableConfigItemDelegateV2 {
        rule_set: RuleSetToggle,
        authorization_data: Option<AuthorizationData>,
    },
}
