use crate::env::*;
use spl_token_wrap::processor::process_instruction;

/// Wrap on any nine accounts and any amount, with `X` additional accounts; the
/// transfer authority carries `U` bytes of data (355: it may be a multisig).
fn wrap_any<const U: usize>(x: usize, program: Option<Pubkey>, s0: bool, s1: bool, only_honest: bool) -> [bool; 4] {
    init();
    let mut recip = TokAcc::any();
    let mut wmint = Acc::<82>::any();
    let mut auth = Acc::<0>::any();
    let mut uprog = Acc::<0>::any();
    let mut wprog = Acc::<0>::any();
    let mut src = TokAcc::any();
    let mut umint = MintAcc::any();
    let mut esc = TokAcc::any();
    let mut user = Acc::<U>::any();
    if let Some(p) = program {
        user.owner = p;
    }
    let mut x0 = Acc::<0>::any();
    let mut x1 = Acc::<0>::any();
    // the third one, if there, is a signer of the multisig
    let mut x2 = if x > 2 { Acc::<0>::any() } else { Acc::<0>::blank() };
    let s2 = x > 2;
    let accts = [recip.info(), wmint.info(), auth.info(), uprog.info(), wprog.info(), src.info(), umint.info(), esc.info(), user.info(), x0.info(), x1.info(), if s2 { x2.info() } else { x2.unused() }];
    let amount = u64();
    let a = amount.to_le_bytes();
    let data = [1, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]];
    let wm = spec_wrapped_mint(umint.key(), &wprog.key);
    let au = spec_authority(&wmint.key);
    let es = spec_ata(&auth.key, umint.key(), &uprog.key);
    let classic = uprog.k().eq(&TOKEN_SPL);
    // mints of the classic program have no extensions
    assume(!classic | (!umint.has_fee & !umint.has_hook));
    let fee = spec_fee(&umint, amount);
    let multisig = program.is_some();
    if multisig {
        assume((user.data[1] <= 11) & (is_signer_of(&user, &x0.k()) == s0) & (is_signer_of(&user, &x1.k()) == s1) & (!s2 | is_signer_of(&user, &x2.k())));
        unsafe {
            MEMBER[0] = (accts[9].key.as_array().as_ptr(), 1 + s0 as u8);
            MEMBER[1] = (accts[10].key.as_array().as_ptr(), 1 + s1 as u8);
            if s2 {
                MEMBER[2] = (accts[11].key.as_array().as_ptr(), 2);
            }
        }
    }
    let hook = umint.hook_program();
    let hooked = umint.has_hook & !hook.eq(&K0);
    let supplied = ((x > 0) & hook.eq(&x0.k())) | ((x > 1) & hook.eq(&x1.k())) | (s2 & hook.eq(&x2.k()));
    let honest = wmint.k().eq(&wm) & auth.k().eq(&au) & esc.k().eq(&es) & is_token_program(&uprog.k()) & is_token_program(&wprog.k())
        & (amount != 0) & esc.is_account() & esc.owner_field().eq(&au) & !src.k().eq(&es) & umint.is_mint()
        & (!hooked | supplied)
        & recip.acc.writable & wmint.writable & src.acc.writable & esc.acc.writable
        & if multisig { (!s0 | x0.signer) & (!s1 | x1.signer) & (!s2 | x2.signer) } else { user.signer };
    if only_honest {
        assume(honest);
        g().strict = true;
    }
    let r = process_instruction(&SELF, &accts[..9 + x], &data);
    core::mem::forget(accts);
    let s = g();
    if only_honest {
        check!(r.is_ok(), "C22 wrap: an honest wrap is never refused by token-wrap");
        let t = if s.op[0].kind == TRANSFER { &s.op[0] } else { &s.op[1] };
        check!(!t.checked | (t.decimals == umint.decimals()), "C22 wrap: the deposit states the mint's decimals, or it would be rejected");
        check!(!t.has_fee | (t.fee == fee), "C22 wrap: the deposit states the mint's fee, or it would be rejected");
        return [r.is_ok(); 4];
    }
    if r.is_ok() {
        check!(wmint.k().eq(&wm), "C04 wrap: the wrapped mint is the canonical one of (unwrapped mint, wrapped token program)");
        check!(auth.k().eq(&au), "C04 wrap: the mint authority is the canonical one of the wrapped mint");
        check!(esc.k().eq(&es), "C04 wrap: the escrow is the authority's ATA for the unwrapped mint");
        check!(is_token_program(&uprog.k()) & is_token_program(&wprog.k()), "C04 wrap: only genuine token programs are trusted");
        check!(amount != 0, "C05 wrap: a zero amount is refused");
        check!(esc.owner_field().eq(&au), "C06 wrap: the escrow token account is owned by the authority PDA");
        check!(s.n_op == 2, "C03 wrap: exactly one deposit and one mint happen");
        check!(only_pda(&au, &au), "C03 wrap: no PDA but the mint authority signs");
        // the two operations, in either order
        let (t, m) = if s.op[0].kind == TRANSFER { (s.op[0], s.op[1]) } else { (s.op[1], s.op[0]) };
        check!((s.n_op == 2) & (t.kind == TRANSFER) & (m.kind == MINT_TO), "C01 wrap: one deposit and one mint happen");
        // deposit
        check!(t.program.eq(&uprog.k()), "C01 wrap: the deposit runs on the unwrapped token program");
        check!(t.m[0].key.eq(&src.k()), "C01 wrap: the deposit is taken from the given account");
        check!(t.m[2].key.eq(&es), "C01 wrap: the deposit goes to the canonical escrow");
        check!(!t.checked | t.m[1].key.eq(&umint.k()), "C01 wrap: the deposit is in the unwrapped mint");
        check!(t.amount == amount, "C01 wrap: the deposit is the requested amount");
        check!(t.m[3].key.eq(&user.k()) & !t.m[3].pda & (t.seeds == 0), "C07 wrap: the deposit is authorised by the transfer authority only, never by a PDA");
        check!(multisig | t.m[3].signer, "C07 wrap: a single transfer authority signs the deposit itself");
        check!(t.n == 4 + s0 as usize + s1 as usize + s2 as usize, "C07 wrap: exactly the multisig's signers among the accounts sign the deposit");
        check!(!s0 | (t.m[4].key.eq(&x0.k()) & t.m[4].signer), "C07 wrap: the first multisig signer signs the deposit");
        check!(!s1 | (t.m[4 + s0 as usize].key.eq(&x1.k()) & t.m[4 + s0 as usize].signer), "C07 wrap: the second multisig signer signs the deposit");
        check!(!s2 | (t.m[4 + s0 as usize + s1 as usize].key.eq(&x2.k()) & t.m[4 + s0 as usize + s1 as usize].signer), "C07 wrap: the third multisig signer signs the deposit");
        assume(!t.has_fee | (t.fee == fee));
        let credited = if t.m[0].key.eq(&t.m[2].key) { 0 } else { amount - fee };
        check!(m.amount <= credited, "C01 wrap: no more is minted than the escrow received");
        check!(m.amount == amount - fee, "C01 wrap: the amount minted is the deposit net of the transfer fee");
        check!(m.program.eq(&wprog.k()), "C01 wrap: the mint runs on the wrapped token program");
        check!(m.m[0].key.eq(&wm), "C01 wrap: the canonical wrapped mint is minted");
        check!(m.m[1].key.eq(&recip.k()), "C01 wrap: the wrapped tokens go to the recipient");
        check!(m.m[2].key.eq(&au) & m.m[2].pda, "C03 wrap: the mint is signed by the canonical authority PDA");
    }
    let ok = r.is_ok();
    [ok, ok & umint.has_fee & (fee > 0), ok & classic & wprog.k().eq(&TOKEN_2022), ok & uprog.k().eq(&TOKEN_2022) & wprog.k().eq(&TOKEN_SPL)]
}
#[cfg_attr(kani, kani::proof, kani::unwind(9))]
pub fn wrap() {
    let c = wrap_any::<0>(0, None, false, false, false);
    more!(c[0], "the tokens can be wrapped");
    more!(c[1], "tokens with a fee can be wrapped");
    cover!(c[2], "classic tokens can be wrapped, as Token-2022 tokens");
    more!(c[3], "Token-2022 tokens can be wrapped, as classic tokens");
}
/// With additional accounts for a transfer hook.
#[cfg_attr(kani, kani::proof, kani::unwind(12))]
pub fn extras() {
    let c = wrap_any::<0>(2, None, false, false, false);
    more!(c[0], "the tokens can be wrapped");
    more!(c[1], "tokens with a fee can be wrapped");
    cover!(c[2], "classic tokens can be wrapped, as Token-2022 tokens");
    more!(c[3], "Token-2022 tokens can be wrapped, as classic tokens");
}
/// A multisig, with two additional accounts: which of them are its signers.
#[cfg_attr(kani, kani::proof, kani::unwind(12))]
pub fn multisig_both() {
    let c = wrap_any::<355>(2, Some(TOKEN_2022_ID), true, true, false);
    more!(c[0], "the tokens can be wrapped");
    more!(c[1], "tokens with a fee can be wrapped");
    cover!(c[2], "classic tokens can be wrapped, as Token-2022 tokens");
    more!(c[3], "Token-2022 tokens can be wrapped, as classic tokens");
}
#[cfg_attr(kani, kani::proof, kani::unwind(12))]
pub fn multisig_first() {
    let c = wrap_any::<355>(2, Some(SPL_TOKEN), true, false, false);
    more!(c[0], "the tokens can be wrapped");
    more!(c[1], "tokens with a fee can be wrapped");
    cover!(c[2], "classic tokens can be wrapped, as Token-2022 tokens");
    more!(c[3], "Token-2022 tokens can be wrapped, as classic tokens");
}
#[cfg_attr(kani, kani::proof, kani::unwind(12))]
pub fn multisig_second() {
    let c = wrap_any::<355>(2, Some(TOKEN_2022_ID), false, true, false);
    more!(c[0], "the tokens can be wrapped");
    more!(c[1], "tokens with a fee can be wrapped");
    cover!(c[2], "classic tokens can be wrapped, as Token-2022 tokens");
    more!(c[3], "Token-2022 tokens can be wrapped, as classic tokens");
}
#[cfg_attr(kani, kani::proof, kani::unwind(12))]
pub fn multisig_three() {
    let c = wrap_any::<355>(3, Some(SPL_TOKEN), true, true, false);
    cover!(c[0], "the tokens can be wrapped");
}

/// A transaction that keeps every documented requirement.
#[cfg_attr(kani, kani::proof, kani::unwind(9))]
pub fn honest() {
    let c = wrap_any::<0>(0, None, false, false, true);
    cover!(c[0], "an honest wrap exists");
}
#[cfg_attr(kani, kani::proof, kani::unwind(12))]
pub fn honest_extras() {
    let c = wrap_any::<0>(2, None, false, false, true);
    cover!(c[0], "an honest wrap exists");
}
#[cfg_attr(kani, kani::proof, kani::unwind(12))]
pub fn honest_multisig() {
    let c = wrap_any::<355>(2, Some(SPL_TOKEN), true, true, true);
    cover!(c[0], "an honest wrap exists");
}
#[cfg_attr(kani, kani::proof, kani::unwind(12))]
pub fn honest_multisig_2022() {
    let c = wrap_any::<355>(2, Some(TOKEN_2022_ID), true, false, true);
    cover!(c[0], "an honest wrap exists");
}
#[cfg_attr(kani, kani::proof, kani::unwind(12))]
pub fn honest_multisig_three() {
    let c = wrap_any::<355>(3, Some(TOKEN_2022_ID), true, true, true);
    cover!(c[0], "an honest wrap exists");
}
