use crate::env::*;
use spl_token_wrap::processor::process_instruction;

/// Unwrap on any nine accounts and any amount, with `x` additional accounts; the
/// transfer authority carries `U` bytes of data (355: it may be a multisig).
fn unwrap_any<const U: usize>(x: usize, program: Option<Pubkey>, s0: bool, s1: bool, only_honest: bool) -> [bool; 4] {
    init();
    let mut esc = TokAcc::any();
    let mut recip = TokAcc::any();
    let mut auth = Acc::<0>::any();
    let mut umint = MintAcc::any();
    let mut wprog = Acc::<0>::any();
    let mut uprog = Acc::<0>::any();
    let mut from = TokAcc::any();
    let mut wmint = Acc::<82>::any();
    let mut user = Acc::<U>::any();
    if let Some(p) = program {
        user.owner = p;
    }
    let mut x0 = Acc::<0>::any();
    let mut x1 = Acc::<0>::any();
    // the third one, if there, is a signer of the multisig
    let mut x2 = if x > 2 { Acc::<0>::any() } else { Acc::<0>::blank() };
    let s2 = x > 2;
    let accts = [esc.info(), recip.info(), auth.info(), umint.info(), wprog.info(), uprog.info(), from.info(), wmint.info(), user.info(), x0.info(), x1.info(), if s2 { x2.info() } else { x2.unused() }];
    let amount = u64();
    let a = amount.to_le_bytes();
    let data = [2, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]];
    let wm = spec_wrapped_mint(umint.key(), &wprog.key);
    let au = spec_authority(&wmint.key);
    let es = spec_ata(&auth.key, umint.key(), &uprog.key);
    let classic = uprog.k().eq(&TOKEN_SPL);
    // mints of the classic program have no extensions
    assume(!classic | (!umint.has_fee & !umint.has_hook));
    let multisig = program.is_some();
    if multisig {
        assume((user.data[1] <= 11) & (is_signer_of(&user, &x0.k()) == s0) & (is_signer_of(&user, &x1.k()) == s1) & (!s2 | is_signer_of(&user, &x2.k())));
        unsafe {
            MEMBER[0] = (accts[9].key.as_array().as_ptr(), 1 + s0 as u8);
            MEMBER[1] = (accts[10].key.as_array().as_ptr(), 1 + s1 as u8);
            if s2 {
                MEMBER[2] = (accts[11].key.as_array().as_ptr(), 2);
            }
        }
    }
    let hook = umint.hook_program();
    let hooked = umint.has_hook & !hook.eq(&K0);
    let supplied = ((x > 0) & hook.eq(&x0.k())) | ((x > 1) & hook.eq(&x1.k())) | (s2 & hook.eq(&x2.k()));
    let honest = wmint.k().eq(&wm) & auth.k().eq(&au) & esc.k().eq(&es) & is_token_program(&uprog.k()) & is_token_program(&wprog.k())
        & (amount != 0) & umint.is_mint() & (!hooked | supplied)
        & recip.acc.writable & wmint.writable & from.acc.writable & esc.acc.writable
        & if multisig { (!s0 | x0.signer) & (!s1 | x1.signer) & (!s2 | x2.signer) } else { user.signer };
    if only_honest {
        assume(honest);
        g().strict = true;
    }
    let r = process_instruction(&SELF, &accts[..9 + x], &data);
    core::mem::forget(accts);
    let s = g();
    if only_honest {
        check!(r.is_ok(), "C22 unwrap: an honest unwrap is never refused by token-wrap");
        let t = if s.op[0].kind == BURN { &s.op[1] } else { &s.op[0] };
        check!(!t.checked | (t.decimals == umint.decimals()), "C22 unwrap: the release states the mint's decimals, or it would be rejected");
        return [r.is_ok(); 4];
    }
    if r.is_ok() {
        check!(wmint.k().eq(&wm), "C04 unwrap: the wrapped mint is the canonical one of (unwrapped mint, wrapped token program)");
        check!(auth.k().eq(&au), "C04 unwrap: the mint authority is the canonical one of the wrapped mint");
        check!(esc.k().eq(&es), "C04 unwrap: the escrow is the authority's ATA for the unwrapped mint");
        check!(is_token_program(&uprog.k()) & is_token_program(&wprog.k()), "C04 unwrap: only genuine token programs are trusted");
        check!(amount != 0, "C05 unwrap: a zero amount is refused");
        check!(s.n_op == 2, "C03 unwrap: exactly one burn and one release happen");
        check!(only_pda(&au, &au), "C03 unwrap: no PDA but the mint authority signs");
        let (b, t) = if s.op[0].kind == BURN { (s.op[0], s.op[1]) } else { (s.op[1], s.op[0]) };
        check!((s.n_op == 2) & (t.kind == TRANSFER) & (b.kind == BURN), "C02 unwrap: one burn and one release happen");
        check!((s.n_op == 2) & (t.kind == TRANSFER) & (b.kind == BURN), "C01 unwrap: one burn and one release happen");
        check!(b.program.eq(&wprog.k()) & b.m[1].key.eq(&wm), "C01 unwrap: the canonical wrapped mint is burned");
        check!(b.program.eq(&wprog.k()), "C02 unwrap: the burn runs on the wrapped token program");
        check!(b.m[0].key.eq(&from.k()), "C02 unwrap: the burn is taken from the given account");
        check!(b.m[1].key.eq(&wm), "C02 unwrap: the canonical wrapped mint is burned");
        check!(b.m[2].key.eq(&user.k()) & !b.m[2].pda & (b.seeds == 0), "C07 unwrap: the burn is authorised by the transfer authority only, never by a PDA");
        check!(multisig | b.m[2].signer, "C07 unwrap: a single transfer authority signs the burn itself");
        check!(b.n == 3 + s0 as usize + s1 as usize + s2 as usize, "C07 unwrap: exactly the multisig's signers among the accounts sign the burn");
        check!(!s0 | (b.m[3].key.eq(&x0.k()) & b.m[3].signer), "C07 unwrap: the first multisig signer signs the burn");
        check!(!s1 | (b.m[3 + s0 as usize].key.eq(&x1.k()) & b.m[3 + s0 as usize].signer), "C07 unwrap: the second multisig signer signs the burn");
        check!(!s2 | (b.m[3 + s0 as usize + s1 as usize].key.eq(&x2.k()) & b.m[3 + s0 as usize + s1 as usize].signer), "C07 unwrap: the third multisig signer signs the burn");
        check!(b.amount == amount, "C02 unwrap: the burn is the requested amount");
        check!(t.program.eq(&uprog.k()), "C02 unwrap: the release runs on the unwrapped token program");
        check!(t.m[0].key.eq(&es), "C02 unwrap: the release is taken from the canonical escrow");
        check!(!t.checked | t.m[1].key.eq(&umint.k()), "C02 unwrap: the release is in the unwrapped mint");
        check!(t.m[2].key.eq(&recip.k()), "C02 unwrap: the release goes to the recipient");
        check!(t.amount <= b.amount, "C01 unwrap: no more is released than was burned");
        check!(t.amount == amount, "C02 unwrap: the release is the requested amount");
        check!(t.m[3].key.eq(&au) & t.m[3].pda, "C03 unwrap: the release is signed by the canonical authority PDA");
    }
    let ok = r.is_ok();
    [ok, ok & umint.has_fee, ok & classic & wprog.k().eq(&TOKEN_2022), ok & uprog.k().eq(&TOKEN_2022) & wprog.k().eq(&TOKEN_SPL)]
}
#[cfg_attr(kani, kani::proof, kani::unwind(9))]
pub fn unwrap() {
    let c = unwrap_any::<0>(0, None, false, false, false);
    more!(c[0], "the tokens can be unwrapped");
    more!(c[1], "tokens with a fee can be unwrapped");
    cover!(c[2], "classic tokens can be unwrapped, as Token-2022 tokens");
    more!(c[3], "Token-2022 tokens can be unwrapped, as classic tokens");
}
/// With additional accounts for a transfer hook.
#[cfg_attr(kani, kani::proof, kani::unwind(12))]
pub fn extras() {
    let c = unwrap_any::<0>(2, None, false, false, false);
    more!(c[0], "the tokens can be unwrapped");
    more!(c[1], "tokens with a fee can be unwrapped");
    cover!(c[2], "classic tokens can be unwrapped, as Token-2022 tokens");
    more!(c[3], "Token-2022 tokens can be unwrapped, as classic tokens");
}
/// A multisig, with two additional accounts: which of them are its signers.
#[cfg_attr(kani, kani::proof, kani::unwind(12))]
pub fn multisig_both() {
    let c = unwrap_any::<355>(2, Some(TOKEN_2022_ID), true, true, false);
    more!(c[0], "the tokens can be unwrapped");
    more!(c[1], "tokens with a fee can be unwrapped");
    cover!(c[2], "classic tokens can be unwrapped, as Token-2022 tokens");
    more!(c[3], "Token-2022 tokens can be unwrapped, as classic tokens");
}
#[cfg_attr(kani, kani::proof, kani::unwind(12))]
pub fn multisig_first() {
    let c = unwrap_any::<355>(2, Some(SPL_TOKEN), true, false, false);
    more!(c[0], "the tokens can be unwrapped");
    more!(c[1], "tokens with a fee can be unwrapped");
    cover!(c[2], "classic tokens can be unwrapped, as Token-2022 tokens");
    more!(c[3], "Token-2022 tokens can be unwrapped, as classic tokens");
}
#[cfg_attr(kani, kani::proof, kani::unwind(12))]
pub fn multisig_second() {
    let c = unwrap_any::<355>(2, Some(TOKEN_2022_ID), false, true, false);
    more!(c[0], "the tokens can be unwrapped");
    more!(c[1], "tokens with a fee can be unwrapped");
    cover!(c[2], "classic tokens can be unwrapped, as Token-2022 tokens");
    more!(c[3], "Token-2022 tokens can be unwrapped, as classic tokens");
}
#[cfg_attr(kani, kani::proof, kani::unwind(12))]
pub fn multisig_three() {
    let c = unwrap_any::<355>(3, Some(TOKEN_2022_ID), true, true, false);
    cover!(c[0], "the tokens can be unwrapped");
}

/// A transaction that keeps every documented requirement.
#[cfg_attr(kani, kani::proof, kani::unwind(9))]
pub fn honest() {
    let c = unwrap_any::<0>(0, None, false, false, true);
    cover!(c[0], "an honest unwrap exists");
}
#[cfg_attr(kani, kani::proof, kani::unwind(12))]
pub fn honest_extras() {
    let c = unwrap_any::<0>(2, None, false, false, true);
    cover!(c[0], "an honest unwrap exists");
}
#[cfg_attr(kani, kani::proof, kani::unwind(12))]
pub fn honest_multisig() {
    let c = unwrap_any::<355>(2, Some(SPL_TOKEN), true, true, true);
    cover!(c[0], "an honest unwrap exists");
}
#[cfg_attr(kani, kani::proof, kani::unwind(12))]
pub fn honest_multisig_2022() {
    let c = unwrap_any::<355>(2, Some(TOKEN_2022_ID), true, false, true);
    cover!(c[0], "an honest unwrap exists");
}
#[cfg_attr(kani, kani::proof, kani::unwind(12))]
pub fn honest_multisig_three() {
    let c = unwrap_any::<355>(3, Some(TOKEN_2022_ID), true, true, true);
    cover!(c[0], "an honest unwrap exists");
}
