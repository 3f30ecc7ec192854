//! The provided mint customisations (any of them may be deployed by a fork).
use crate::env::*;
use spl_token_wrap::mint_customizer::compliance::ComplianceMintCustomizer as Compliance;
use spl_token_wrap::mint_customizer::default_token_2022::DefaultToken2022Customizer as Default2022;
use spl_token_wrap::mint_customizer::interface::MintCustomizer;
use spl_token_wrap::mint_customizer::no_extensions::NoExtensionCustomizer as NoExt;

const DELEGATE: Pubkey = solana_pubkey::pubkey!("deLpBmD7UP27BHTuhnxR7mBE9rEV6mWUnwWsXMXTFwR");
const CT_AUTHORITY: Pubkey = solana_pubkey::pubkey!("con2YXp7bKscyhzJzbSQgwz6RFcXqe6otUGK5Rr8saK");
const FREEZE: Pubkey = solana_pubkey::pubkey!("freTRAXwCVELv5k7V6UobnCiG1hmhnj79AezxRwAR3h");
const PAUSE: Pubkey = solana_pubkey::pubkey!("pauySfjziLCpPMoaeFsWgvBCe7ygHKr6wXCyvTNZyGv");
/// yonKhqkoXNvMbN/tU6fjHFhfZuNPpvMj8L55aP2bBG4=
const AUDITOR: [u8; 32] = [202, 137, 202, 134, 169, 40, 92, 219, 204, 108, 223, 237, 83, 167, 227, 28, 88, 95, 102, 227, 79, 166, 243, 35, 240, 190, 121, 104,
    253, 155, 4, 110];

/// The size an extension takes in a mint, with its type and length.
fn size(kind: u8) -> usize {
    4 + match kind {
        INIT_CT => 65,
        INIT_PTR => 64,
        INIT_DELEGATE => 32,
        INIT_STATE => 1,
        INIT_PAUSE => 33,
        _ => 0,
    }
}
/// Sets up the extensions of a wrapped mint at any address; returns which.
fn setup<M: MintCustomizer>(kinds: &[u8]) -> K {
    init();
    let mut wmint = Acc::<82>::any();
    let mut wprog = Acc::<0>::any();
    wmint.writable = true;
    wprog.key = TOKEN_2022_ID;
    let (i, p) = (wmint.info(), wprog.info());
    g().strict = true;
    // the all-zero key is on the curve, so no derived address is it
    assume(!wmint.k().eq(&K0) & !spec_authority(&wmint.key).eq(&K0));
    let space = M::get_token_2022_mint_space();
    let r = M::initialize_extensions(&i, &p);
    core::mem::forget((i, p));
    check!(r.is_ok(), "C21 extensions: setting them up is never refused");
    let s = g();
    check!(s.n_op == kinds.len(), "C21 extensions: exactly the documented extensions are set up");
    let mut n = 0;
    let mut ok = true;
    let mut i = 0;
    while i < MAX_OP {
        if i < s.n_op {
            let o = &s.op[i];
            let mut times = 0;
            let mut j = 0;
            while j < kinds.len() {
                times += (o.kind == kinds[j]) as u8;
                j += 1;
            }
            let mut same = 0;
            let mut j = 0;
            while j < MAX_OP {
                same += ((j < s.n_op) & (s.op[j].kind == o.kind)) as u8;
                j += 1;
            }
            ok &= (times == 1) & (same == 1) & o.program.eq(&TOKEN_2022) & (o.n == 1) & o.m[0].key.eq(&wmint.k()) & (o.seeds == 0);
            n += size(o.kind);
            if o.kind == INIT_CT {
                check!(o.decimals == 1, "C21 extensions: confidential accounts are approved automatically");
            }
        }
        i += 1;
    }
    check!(ok, "C21 extensions: each documented extension is set up once, on the new mint");
    let need = if kinds.is_empty() { 82 } else { 166 + n };
    check!(matches!(space, Ok(x) if x == need), "C21 space: the space allocated is the one the extensions need");
    core::mem::forget((space, r));
    wmint.k()
}
fn find(kind: u8) -> Op {
    let s = g();
    let mut r = O0;
    let mut i = 0;
    while i < MAX_OP {
        if (i < s.n_op) & (s.op[i].kind == kind) {
            r = s.op[i];
        }
        i += 1;
    }
    r
}
#[cfg_attr(kani, kani::proof, kani::unwind(34))]
pub fn default() {
    let k = setup::<Default2022>(&[INIT_CT, INIT_PTR]);
    let (ct, p) = (find(INIT_CT), find(INIT_PTR));
    check!(ct.k1.eq(&K0) & ct.k2.eq(&K0), "C21 default: confidential transfers have neither authority nor auditor");
    check!(p.k2.eq(&k) & p.k1.eq(&spec_authority(&Pubkey::new_from_array(k.key()))), "C21 default: the metadata pointer points to the mint, controlled by its authority");
    cover!(true, "extensions are set up");
}
#[cfg_attr(kani, kani::proof, kani::unwind(34))]
pub fn no_extensions() {
    setup::<NoExt>(&[]);
    cover!(true, "no extensions are set up");
}
#[cfg_attr(kani, kani::proof, kani::unwind(50))]
pub fn compliance() {
    setup::<Compliance>(&[INIT_DELEGATE, INIT_STATE, INIT_CT, INIT_PAUSE]);
    let (ct, d, st, p) = (find(INIT_CT), find(INIT_DELEGATE), find(INIT_STATE), find(INIT_PAUSE));
    check!(ct.k1.eq(&tk(&CT_AUTHORITY)) & ct.k2.eq(&K::of(&AUDITOR)), "C21 compliance: confidential transfers have the documented authority and auditor");
    check!(d.k1.eq(&tk(&DELEGATE)), "C21 compliance: the permanent delegate is the documented one");
    check!(st.decimals == 1, "C21 compliance: new accounts are initialised, not frozen");
    check!(p.k1.eq(&tk(&PAUSE)), "C21 compliance: the pause authority is the documented one");
    cover!(true, "extensions are set up");
}
/// Freeze authority and decimals, for any unwrapped mint.
#[cfg_attr(kani, kani::proof, kani::unwind(34))]
pub fn rules() {
    init();
    let mut um = MintAcc::any();
    // invariant of mints: an option tag is 0 or 1
    let tag = &um.acc.data[46..50];
    assume((tag[1] == 0) & (tag[2] == 0) & (tag[3] == 0) & (tag[0] <= 1));
    let frozen = um.acc.data[46] == 1;
    let freeze = rd_k(&um.acc.data, 50);
    let i = um.info();
    let (mint, decimals) = (um.is_mint(), um.decimals());
    let same = |r: &Result<(Option<Pubkey>, u8), solana_program_error::ProgramError>| match r {
        Ok((f, d)) => mint & (*d == decimals) & match f {
            Some(k) => frozen & tk(k).eq(&freeze),
            None => !frozen,
        },
        Err(_) => !mint,
    };
    let (a, b, c) = (Default2022::get_freeze_auth_and_decimals(&i), NoExt::get_freeze_auth_and_decimals(&i), Compliance::get_freeze_auth_and_decimals(&i));
    core::mem::forget(i);
    check!(same(&a), "C21 default: freeze authority and decimals are those of the unwrapped mint");
    check!(same(&b), "C21 no extensions: freeze authority and decimals are those of the unwrapped mint");
    let ok = match &c {
        Ok((f, d)) => mint & (*d == decimals) & match f {
            Some(k) => tk(k).eq(&tk(&FREEZE)),
            None => false,
        },
        Err(_) => !mint,
    };
    check!(ok, "C21 compliance: the freeze authority is the documented one, the decimals those of the unwrapped mint");
    cover!(a.is_ok() & frozen, "a mint with a freeze authority exists");
    cover!(a.is_ok() & !frozen, "a mint without a freeze authority exists");
    core::mem::forget((a, b, c));
}
