//! Contracts of token-wrap, one harness per entry point; each module can be
//! switched on alone, so that a check only compiles what it decides.
#![allow(static_mut_refs)]
pub mod env;

macro_rules! harnesses {
    ($($feature:literal $m:ident { $($h:ident),* })*) => {
        $(#[cfg(feature = $feature)] pub mod $m;)*
        /// Runs a harness natively (replay of a counterexample).
        pub fn run(name: &str) -> bool {
            match name {
                $($(
                    #[cfg(feature = $feature)]
                    concat!(stringify!($m), "::", stringify!($h)) => { $m::$h(); true }
                )*)*
                _ => false,
            }
        }
    };
}
harnesses! {
    "wrap" wrap { wrap, extras, multisig_both, multisig_first, multisig_second, multisig_three, honest, honest_extras, honest_multisig, honest_multisig_2022, honest_multisig_three }
    "unwrap" unwrap { unwrap, extras, multisig_both, multisig_first, multisig_second, multisig_three, honest, honest_extras, honest_multisig, honest_multisig_2022, honest_multisig_three }
    "create" create { fresh_2022, fresh_2022_idem, fresh_spl, fresh_spl_strict, fresh_other, existing_idem, existing_strict }
    "pointer" pointer { create, update }
    "escrow" escrow { close0, close1, close2, close3, close4, close5, close6, close7, close8, close9, close10, close11, close12, close13, close14, close15 }
    "custom" custom { default, no_extensions, compliance, rules }
    "codec" codec { unpack, pack, errors }
    "meta" meta { read0, read1, read2, sync22_n, sync22_n_ab, sync22_n_abcd, sync22_0, sync22_0_len, sync22_0_ab, sync22_a, sync22_a_a, sync22_a_a_len, sync22_a_b, sync22_a_ba, sync22_ab, sync22_ab_a, sync22_ab_b, sync22_ab_ba, sync22_ab_bc, sync22_ab_ca, sync22_ab_cd, sync22_abc, sync22_abc_cab, sync22_abc_bd, sync22_e_n, sync22_e_0, sync22_e_new, sync22_e_old, sync22_tall_new, sync22_tall_old, to22_plain, to22_full, to22_creator, to22_empty, to22_uses, tompl_none, tompl_all, tompl_creator, tompl_empty, tompl_uses, to22_five, tompl_three, tompl_five, to22_tall, tompl_tall, syncspl_tall_new, syncspl_tall_old, syncspl_own_new, syncspl_own_old, syncspl_none_new, syncspl_none_old, syncspl_mpl_new, syncspl_mpl_old, syncspl_plain_new, syncspl_plain_old, bind22_0, bind22_2, bindspl_0, bindspl_2 }
    "build" build { simple, sync, transfer, transfer_multisig, addresses, addresses2, escrow }
}
