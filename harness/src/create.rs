use crate::env::*;
use spl_token_wrap::processor::process_instruction;

const NONE: K = K(0, 0);

struct Fresh {
    wmint: Acc<303>,
    bp: Acc<32>,
    umint: MintAcc,
    sys: Acc<0>,
    wprog: Acc<0>,
}
/// CreateMint on accounts that do not exist yet; `wprog`: the wrapped token
/// program, or any other program.
fn fresh(wprog: Option<Pubkey>, space: u64, idem: u8) -> (Fresh, bool) {
    init();
    let mut f = Fresh { wmint: Acc::fresh(), bp: Acc::fresh(), umint: MintAcc::any(), sys: Acc::any(), wprog: Acc::any() };
    if let Some(p) = wprog {
        f.wprog.key = p;
    } else {
        assume(!is_token_program(&f.wprog.k()));
    }
    // invariant of mints: an option tag is 0 or 1
    let tag = &f.umint.acc.data[46..50];
    assume((tag[1] == 0) & (tag[2] == 0) & (tag[3] == 0) & (tag[0] <= 1));
    let (mint_lamports, bp_lamports) = (f.wmint.lamports, f.bp.lamports);
    let accts = [f.wmint.fresh_info(), f.bp.fresh_info(), f.umint.info(), f.sys.info(), f.wprog.info()];
    let (rent_mint, rent_bp) = (spec_rent(space), spec_rent(32));
    let umint_owner = f.umint.acc.o();
    let wm = spec_wrapped_mint(f.umint.key(), &f.wprog.key);
    let bp = spec_backpointer(&f.wmint.key);
    let au = spec_authority(&f.wmint.key);
    let r = process_instruction(&SELF, &accts, &[0, idem]);
    core::mem::forget(accts);
    if r.is_ok() {
        let s = g();
        check!(f.wmint.k().eq(&wm), "C10 create: the wrapped mint is created at its canonical address only");
        check!(f.bp.k().eq(&bp), "C10 create: the backpointer is created at its canonical address only");
        check!(is_token_program(&umint_owner), "C10 create: the unwrapped mint belongs to a genuine token program");
        check!(mint_lamports >= rent_mint, "C10 create: a wrapped mint that is not rent exempt is refused");
        check!(bp_lamports >= rent_bp, "C10 create: a backpointer that is not rent exempt is refused");
        check!(only_pda(&wm, &bp), "C03 create: no PDA but the new mint's and backpointer's signs");
        // the operations on each account, in order
        let mut n_mint = 0;
        let mut n_bp = 0;
        let mut others = 0;
        let mut ok = true;
        let mut ext = 0;
        let mut i = 0;
        while i < MAX_OP {
            if i < s.n_op {
                let o = s.op[i];
                let on_mint = (o.n >= 1) & o.m[0].key.eq(&wm);
                let on_bp = (o.n >= 1) & o.m[0].key.eq(&bp);
                if o.kind == ALLOCATE {
                    ok &= o.program.eq(&K0);
                    if on_mint {
                        check!(o.amount == space, "C11 create: the wrapped mint has exactly the documented size");
                        check!(n_mint == 0, "C08 create: the mint is allocated once, first");
                        n_mint += 1;
                    } else if on_bp {
                        check!(o.amount == 32, "C08 create: the backpointer holds exactly one address");
                        check!(n_bp == 0, "C08 create: the backpointer is allocated once");
                        n_bp += 1;
                    } else {
                        others += 1;
                    }
                } else if o.kind == ASSIGN {
                    ok &= o.program.eq(&K0);
                    if on_mint {
                        check!(o.k1.eq(&f.wprog.k()), "C08 create: the mint is given to the wrapped token program");
                        check!(n_mint == 1, "C08 create: the mint is assigned once, before it is initialised");
                        n_mint += 1;
                    } else if on_bp {
                        check!(o.k1.eq(&tk(&SELF)), "C08 create: the backpointer belongs to token-wrap");
                        check!(n_bp == 1, "C08 create: the backpointer is assigned once");
                        n_bp += 1;
                    } else {
                        others += 1;
                    }
                } else if (o.kind == INIT_CT) & on_mint {
                    check!(o.program.eq(&TOKEN_2022) & (n_mint == 2), "C11 create: confidential transfers are set up on Token-2022 before the mint");
                    check!(o.k1.eq(&NONE), "C11 create: confidential transfers have no authority");
                    check!(o.decimals == 1, "C11 create: confidential accounts are approved automatically");
                    check!(o.k2.eq(&NONE), "C11 create: confidential transfers have no auditor");
                    ext += 1;
                } else if (o.kind == INIT_PTR) & on_mint {
                    check!(o.program.eq(&TOKEN_2022) & (n_mint == 2), "C11 create: the metadata pointer is set up on Token-2022 before the mint");
                    check!(o.k1.eq(&au), "C11 create: the metadata pointer is controlled by the wrapped mint authority");
                    check!(o.k2.eq(&wm), "C11 create: the metadata pointer points to the wrapped mint itself");
                    ext += 10;
                } else if (o.kind == INIT_MINT) & on_mint {
                    check!(o.program.eq(&f.wprog.k()), "C08 create: the mint is initialised by the wrapped token program");
                    check!(n_mint == 2, "C08 create: the mint is initialised once, after it is assigned");
                    n_mint += 1;
                    check!(o.decimals == f.umint.decimals(), "C08 create: the decimals are those of the unwrapped mint");
                    check!(o.k1.eq(&au), "C08 create: the mint authority is the canonical PDA");
                    let freeze = f.umint.acc.data[46] == 1;
                    check!(o.has_k2 == freeze, "C08 create: there is a freeze authority exactly if the unwrapped mint has one");
                    check!(!freeze | o.k2.eq(&rd_k(&f.umint.acc.data, 50)), "C08 create: the freeze authority is that of the unwrapped mint");
                } else {
                    others += 1;
                }
            }
            i += 1;
        }
        check!(ok & (others == 0), "C03 create: nothing else is called");
        check!((n_mint == 3) & (n_bp == 2), "C08 create: mint and backpointer are both set up");
        let want = if f.wprog.k().eq(&TOKEN_2022) { 11 } else { 0 };
        check!(ext == want, "C11 create: exactly the documented extensions are set up");
        check!(f.bp.data_len() == 32 && K::of(&f.bp.data).eq(&f.umint.k()), "C08 create: the backpointer records the unwrapped mint");
    } else {
        // a refused creation has no effect on chain
    }
    (f, r.is_ok())
}

#[cfg_attr(kani, kani::proof, kani::unwind(34))]
pub fn fresh_2022() {
    let (f, ok) = fresh(Some(TOKEN_2022_ID), 303, 0);
    cover!(ok & (f.umint.acc.data[46] == 1), "C22 a Token-2022 wrapped mint with a freeze authority can be created");
    cover!(ok & (f.umint.acc.data[46] == 0), "C22 a Token-2022 wrapped mint without a freeze authority can be created");
}
#[cfg_attr(kani, kani::proof, kani::unwind(34))]
pub fn fresh_2022_idem() {
    let (_, ok) = fresh(Some(TOKEN_2022_ID), 303, 1);
    cover!(ok, "C22 a Token-2022 wrapped mint can be created idempotently");
}
#[cfg_attr(kani, kani::proof, kani::unwind(34))]
pub fn fresh_spl() {
    let (f, ok) = fresh(Some(SPL_TOKEN), 82, 1);
    cover!(ok & (f.umint.acc.data[46] == 1), "C22 a classic wrapped mint with a freeze authority can be created");
}
#[cfg_attr(kani, kani::proof, kani::unwind(34))]
pub fn fresh_spl_strict() {
    let (_, ok) = fresh(Some(SPL_TOKEN), 82, 0);
    cover!(ok, "C22 a classic wrapped mint can be created");
}
#[cfg_attr(kani, kani::proof, kani::unwind(34))]
pub fn fresh_other() {
    let (_, ok) = fresh(None, 82, 1);
    check!(!ok, "C10 create: only a genuine token program can host a wrapped mint");
    cover!(!ok, "a foreign program is refused");
}

/// CreateMint when at least one of the two accounts already holds data.
fn existing(idem: u8) -> bool {
    init();
    let mut wmint = Acc::<8>::any();
    let mut bp = Acc::<8>::any();
    let mut umint = MintAcc::any();
    let mut sys = Acc::<0>::any();
    let mut wprog = Acc::<0>::any();
    let (lm, lb) = (if bool() { 8 } else { 0 }, if bool() { 8 } else { 0 });
    assume((lm > 0) | (lb > 0));
    let (m0, b0) = (wmint.data, bp.data);
    let (ml0, bl0) = (wmint.lamports, bp.lamports);
    let accts = [wmint.len(lm), bp.len(lb), umint.info(), sys.info(), wprog.info()];
    let wm = spec_wrapped_mint(umint.key(), &wprog.key);
    let b = spec_backpointer(&wmint.key);
    let r = process_instruction(&SELF, &accts, &[0, idem]);
    core::mem::forget(accts);
    check!(r.is_err() | (idem == 1), "C09 create: an existing mint or backpointer is refused unless idempotent");
    if r.is_ok() {
        let s = g();
        check!(s.n_op == 0, "C09 create: nothing is called when the mint or backpointer exists");
        let same = rd64(&wmint.data, 0) == rd64(&m0, 0) && rd64(&bp.data, 0) == rd64(&b0, 0);
        check!(same & (wmint.lamports == ml0) & (bp.lamports == bl0), "C09 create: existing accounts are left as they are");
        check!(wmint.o().eq(&wprog.k()), "C09 create: an existing wrapped mint must belong to the wrapped token program");
        check!(bp.o().eq(&tk(&SELF)), "C09 create: an existing backpointer must belong to token-wrap");
        check!(wmint.k().eq(&wm) & bp.k().eq(&b), "C09 create: success vouches for the canonical addresses only");
        check!(is_token_program(&umint.acc.o()), "C09 create: success vouches for a genuine unwrapped mint only");
    }
    r.is_ok() & (lm > 0) & (lb > 0)
}
#[cfg_attr(kani, kani::proof, kani::unwind(9))]
pub fn existing_idem() {
    let ok = existing(1);
    cover!(ok, "C22 creating an existing mint idempotently succeeds");
}
#[cfg_attr(kani, kani::proof, kani::unwind(9))]
pub fn existing_strict() {
    let ok = existing(0);
    cover!(!ok, "creating an existing mint is refused");
}
