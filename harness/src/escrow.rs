use crate::env::*;
use spl_token_wrap::processor::process_instruction;

/// Every extension a Token-2022 account can carry.
const TFA: usize = 0;
const IO: usize = 1;
const NTA: usize = 3;
const THA: usize = 4;
const PA: usize = 8;
const ACCOUNT_TYPES: [u16; 9] = [2, 7, 8, 13, 15, 11, 5, 17, 27];

/// CloseStuckEscrow on any six accounts; the escrow carries any set of account
/// extensions, the mint a given set of the extensions that concern its accounts
/// (and any one other).
fn close_any(fee: bool, nt: bool, hook: bool, pause: bool) {
    init();
    let mut esc = TokAcc::any();
    let mut dest = Acc::<0>::any();
    let mut umint = MintAcc::any();
    let mut wmint = Acc::<0>::any();
    let mut auth = Acc::<0>::any();
    let mut prog = Acc::<0>::any();
    let mut e = [false; 9];
    unsafe {
        TLV_OF[0] = esc.acc.data[165..].as_ptr();
        TLV_OF[1] = umint.acc.data[82..].as_ptr();
        TLV_TYPE[0] = ACCOUNT_TYPES;
        TLV_TYPE[1] = [1, 9, 3, 14, 18, 26, 0, 0, 0];
        TLV_HAS[1][0] = fee;
        TLV_HAS[1][1] = nt;
        TLV_HAS[1][2] = true;
        TLV_HAS[1][3] = hook;
        TLV_HAS[1][4] = true;
        TLV_HAS[1][5] = pause;
        REQUIRED[0] = fee;
        REQUIRED[1] = nt;
        REQUIRED[2] = hook;
        REQUIRED[3] = pause;
        let mut i = 0;
        while i < 9 {
            e[i] = bool();
            TLV_HAS[0][i] = e[i];
            i += 1;
        }
    }
    let healthy = (e[TFA] == fee) & e[IO] & (e[NTA] == nt) & (e[THA] == hook) & (e[PA] == pause) & !e[2] & !e[5] & !e[6] & !e[7];
    let d = esc.acc.data;
    let accts = [esc.info(), dest.info(), umint.info(), wmint.info(), auth.info(), prog.info()];
    let wm = spec_wrapped_mint(umint.key(), &wmint.owner);
    let au = spec_authority(&wmint.key);
    let es = spec_ata(&auth.key, umint.key(), &TOKEN_2022_ID);
    let t22 = esc.acc.o().eq(&TOKEN_2022) & umint.acc.o().eq(&TOKEN_2022);
    let (empty, state) = (rd64(&d, 64) == 0, d[108]);
    let honest = wmint.k().eq(&wm) & auth.k().eq(&au) & esc.k().eq(&es) & t22 & esc.owner_field().eq(&au) & empty & (state == 1) & !healthy
        & (esc.kind == ACCOUNT) & (umint.kind == MINT) & (umint.acc.data[45] != 0) & esc.acc.writable & dest.writable;
    g().strict = honest;
    let r = process_instruction(&SELF, &accts, &[3]);
    core::mem::forget(accts);
    let s = g();
    cover!(honest, "C12 an empty stuck escrow exists");
    check!(!honest | r.is_ok(), "C12 close: an empty stuck escrow can always be closed");
    if r.is_ok() {
        check!(wmint.k().eq(&wm), "C12 close: the wrapped mint is canonical");
        check!(auth.k().eq(&au), "C12 close: the authority is canonical");
        check!(esc.k().eq(&es), "C12 close: the escrow is canonical");
        check!(t22, "C12 close: only Token-2022 escrows of Token-2022 mints can be stuck");
        check!(esc.owner_field().eq(&au), "C12 close: the escrow is owned by the authority");
        check!(empty, "C12 close: an escrow that holds tokens is never closed");
        check!(state == 1, "C12 close: only an initialised, unfrozen escrow is closed");
        check!(!healthy, "C12 close: an escrow that fits its mint is never closed");
        check!(s.n_op == 1, "C12 close: exactly one call happens");
        let o = s.op[0];
        check!((o.kind == CLOSE) & o.program.eq(&TOKEN_2022), "C12 close: the call closes an account on Token-2022");
        check!(o.m[0].key.eq(&es), "C12 close: the escrow is closed");
        check!(o.m[1].key.eq(&dest.k()), "C12 close: the lamports go to the destination");
        check!(o.m[2].key.eq(&au) & o.m[2].pda, "C12 close: the authority PDA signs");
        check!(only_pda(&au, &au), "C03 close: no PDA but the authority signs");
    } else {
        check!(s.n_op == 0, "C12 close: a refused close calls nothing");
    }
    cover!(r.is_ok(), "a stuck escrow can be closed");
}
macro_rules! sets {
    ($($name:ident $fee:literal $nt:literal $hook:literal $pause:literal,)*) => {$(
        #[cfg_attr(kani, kani::proof, kani::unwind(10))]
        pub fn $name() {
            close_any($fee == 1, $nt == 1, $hook == 1, $pause == 1)
        }
    )*};
}
sets! {
    close0 0 0 0 0, close1 1 0 0 0, close2 0 1 0 0, close3 1 1 0 0,
    close4 0 0 1 0, close5 1 0 1 0, close6 0 1 1 0, close7 1 1 1 0,
    close8 0 0 0 1, close9 1 0 0 1, close10 0 1 0 1, close11 1 1 0 1,
    close12 0 0 1 1, close13 1 0 1 1, close14 0 1 1 1, close15 1 1 1 1,
}
