use crate::env::*;
use solana_instruction::Instruction;
use spl_token_wrap::instruction as b;
use spl_token_wrap::*;

fn k() -> Pubkey {
    Pubkey::new_from_array(key())
}
const W: u8 = 1;
const S: u8 = 2;
const MPL: Pubkey = solana_pubkey::pubkey!("metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s");
const SYSTEM: Pubkey = solana_pubkey::pubkey!("11111111111111111111111111111111");
const RENT: Pubkey = solana_pubkey::pubkey!("SysvarRent111111111111111111111111111111111");

/// The documented accounts, in order, with the documented privileges.
macro_rules! expect {
    ($i:expr, $program:expr, $data:expr, [$(($key:expr, $flags:expr)),* $(,)?]) => {{
        let i: Instruction = $i;
        let mut n = 0;
        $(
            check!(n < i.accounts.len() && i.accounts[n].pubkey == $key, "C19 builders: the documented accounts in the documented order");
            check!(n < i.accounts.len() && i.accounts[n].is_writable == ($flags & W != 0), "C19 builders: exactly the documented accounts are writable");
            check!(n < i.accounts.len() && i.accounts[n].is_signer == ($flags & S != 0), "C19 builders: exactly the documented accounts sign");
            n += 1;
        )*
        check!(i.accounts.len() == n, "C19 builders: no other accounts");
        check!(i.program_id == $program, "C19 builders: the given program is called");
        let d: &[u8] = $data;
        let mut same = i.data.len() == d.len();
        let mut j = 0;
        while j < 33 {
            if j < d.len() && j < i.data.len() {
                same &= i.data[j] == d[j];
            }
            j += 1;
        }
        check!(same, "C19 builders: the documented instruction data");
        core::mem::forget(i);
    }};
}
fn amount(t: u8, a: u64) -> [u8; 9] {
    let b = a.to_le_bytes();
    [t, b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]
}

#[cfg_attr(kani, kani::proof, kani::unwind(34))]
pub fn simple() {
    let (p, k1, k2, k3, k4, k5) = (k(), k(), k(), k(), k(), k());
    let idem = bool();
    expect!(b::create_mint(&p, &k1, &k2, &k3, &k4, idem), p, &[0, idem as u8],
        [(k1, W), (k2, W), (k3, 0), (SYSTEM, 0), (k4, 0)]);
    expect!(b::close_stuck_escrow(&p, &k1, &k2, &k3, &k4, &k5), p, &[3],
        [(k1, W), (k2, W), (k3, 0), (k4, 0), (k5, 0), (TOKEN_2022_ID, 0)]);
    let mut d = [6u8; 33];
    d[1..].copy_from_slice(k4.as_ref());
    expect!(b::set_canonical_pointer(&p, &k1, &k2, &k3, &k4), p, &d,
        [(k1, S), (k2, W), (k3, 0), (SYSTEM, 0)]);
    cover!(true, "every instruction can be built");
}
#[cfg_attr(kani, kani::proof, kani::unwind(34))]
pub fn sync() {
    let (p, k1, k2, k3, k4, k5, k6) = (k(), k(), k(), k(), k(), k(), k());
    expect!(b::sync_metadata_to_token_2022(&p, &k1, &k2, &k3, None, None), p, &[4],
        [(k1, W), (k2, 0), (k3, 0), (TOKEN_2022_ID, 0)]);
    expect!(b::sync_metadata_to_token_2022(&p, &k1, &k2, &k3, Some(&k4), None), p, &[4],
        [(k1, W), (k2, 0), (k3, 0), (TOKEN_2022_ID, 0), (k4, 0)]);
    expect!(b::sync_metadata_to_token_2022(&p, &k1, &k2, &k3, Some(&k4), Some(&k5)), p, &[4],
        [(k1, W), (k2, 0), (k3, 0), (TOKEN_2022_ID, 0), (k4, 0), (k5, 0)]);
    expect!(b::sync_metadata_to_spl_token(&p, &k1, &k2, &k3, &k4, None, None), p, &[5],
        [(k1, W), (k2, W), (k3, 0), (k4, 0), (MPL, 0), (SYSTEM, 0), (RENT, 0)]);
    expect!(b::sync_metadata_to_spl_token(&p, &k1, &k2, &k3, &k4, Some(&k5), None), p, &[5],
        [(k1, W), (k2, W), (k3, 0), (k4, 0), (MPL, 0), (SYSTEM, 0), (RENT, 0), (k5, 0)]);
    expect!(b::sync_metadata_to_spl_token(&p, &k1, &k2, &k3, &k4, Some(&k5), Some(&k6)), p, &[5],
        [(k1, W), (k2, W), (k3, 0), (k4, 0), (MPL, 0), (SYSTEM, 0), (RENT, 0), (k5, 0), (k6, 0)]);
    cover!(true, "every instruction can be built");
}
#[cfg_attr(kani, kani::proof, kani::unwind(34))]
pub fn transfer() {
    let p = k();
    let q: [Pubkey; 9] = [k(), k(), k(), k(), k(), k(), k(), k(), k()];
    let a = u64();
    expect!(b::wrap(&p, &q[0], &q[1], &q[2], &q[3], &q[4], &q[5], &q[6], &q[7], &q[8], &[], a), p, &amount(1, a),
        [(q[0], W), (q[1], W), (q[2], 0), (q[3], 0), (q[4], 0), (q[5], W), (q[6], 0), (q[7], W), (q[8], S)]);
    expect!(b::unwrap(&p, &q[0], &q[1], &q[2], &q[3], &q[4], &q[5], &q[6], &q[7], &q[8], &[], a), p, &amount(2, a),
        [(q[0], W), (q[1], W), (q[2], 0), (q[3], 0), (q[4], 0), (q[5], 0), (q[6], W), (q[7], W), (q[8], S)]);
    cover!(true, "every instruction can be built");
}
#[cfg_attr(kani, kani::proof, kani::unwind(34))]
pub fn transfer_multisig() {
    let p = k();
    let q: [Pubkey; 9] = [k(), k(), k(), k(), k(), k(), k(), k(), k()];
    let m: [Pubkey; 3] = [k(), k(), k()];
    let a = u64();
    expect!(b::wrap(&p, &q[0], &q[1], &q[2], &q[3], &q[4], &q[5], &q[6], &q[7], &q[8], &[&m[0]], a), p, &amount(1, a),
        [(q[0], W), (q[1], W), (q[2], 0), (q[3], 0), (q[4], 0), (q[5], W), (q[6], 0), (q[7], W), (q[8], 0), (m[0], S)]);
    expect!(b::wrap(&p, &q[0], &q[1], &q[2], &q[3], &q[4], &q[5], &q[6], &q[7], &q[8], &[&m[0], &m[1], &m[2]], a), p, &amount(1, a),
        [(q[0], W), (q[1], W), (q[2], 0), (q[3], 0), (q[4], 0), (q[5], W), (q[6], 0), (q[7], W), (q[8], 0), (m[0], S), (m[1], S), (m[2], S)]);
    expect!(b::unwrap(&p, &q[0], &q[1], &q[2], &q[3], &q[4], &q[5], &q[6], &q[7], &q[8], &[&m[0]], a), p, &amount(2, a),
        [(q[0], W), (q[1], W), (q[2], 0), (q[3], 0), (q[4], 0), (q[5], 0), (q[6], W), (q[7], W), (q[8], 0), (m[0], S)]);
    expect!(b::unwrap(&p, &q[0], &q[1], &q[2], &q[3], &q[4], &q[5], &q[6], &q[7], &q[8], &[&m[0], &m[1], &m[2]], a), p, &amount(2, a),
        [(q[0], W), (q[1], W), (q[2], 0), (q[3], 0), (q[4], 0), (q[5], 0), (q[6], W), (q[7], W), (q[8], 0), (m[0], S), (m[1], S), (m[2], S)]);
    cover!(true, "every instruction can be built");
}

fn pda(seeds: &[&[u8]], program: &Pubkey) -> Pubkey {
    Pubkey::new_from_array(find_pda(seeds, program.as_array()).0)
}
/// Every address is the documented function of its inputs, for this deployment
/// and for any fork.
#[cfg_attr(kani, kani::proof, kani::unwind(34))]
pub fn addresses() {
    init();
    let (u, wp, fork) = (k(), k(), k());
    let wm = pda(&[b"mint", u.as_ref(), wp.as_ref()], &SELF);
    check!(get_wrapped_mint_address(&u, &wp) == wm, "C19 addresses: wrapped mint");
    let wf = pda(&[b"mint", u.as_ref(), wp.as_ref()], &fork);
    check!(get_wrapped_mint_address_for_program(&u, &wp, &fork) == wf, "C19 addresses: wrapped mint of a fork");
    let w = k();
    check!(get_wrapped_mint_authority(&w) == pda(&[b"authority", w.as_ref()], &SELF), "C19 addresses: mint authority");
    check!(get_wrapped_mint_authority_for_program(&w, &fork) == pda(&[b"authority", w.as_ref()], &fork), "C19 addresses: mint authority of a fork");
    cover!(true, "addresses exist");
}
#[cfg_attr(kani, kani::proof, kani::unwind(34))]
pub fn addresses2() {
    init();
    let (u, w, fork) = (k(), k(), k());
    check!(get_wrapped_mint_backpointer_address(&w) == pda(&[b"backpointer", w.as_ref()], &SELF), "C19 addresses: backpointer");
    check!(get_wrapped_mint_backpointer_address_for_program(&w, &fork) == pda(&[b"backpointer", w.as_ref()], &fork), "C19 addresses: backpointer of a fork");
    check!(get_canonical_pointer_address(&u) == pda(&[b"canonical_pointer", u.as_ref()], &SELF), "C19 addresses: canonical pointer");
    check!(get_canonical_pointer_address_for_program(&u, &fork) == pda(&[b"canonical_pointer", u.as_ref()], &fork), "C19 addresses: canonical pointer of a fork");
    cover!(true, "addresses exist");
}
#[cfg_attr(kani, kani::proof, kani::unwind(34))]
pub fn escrow() {
    init();
    let (u, up, wp, fork) = (k(), k(), k(), k());
    let wm = pda(&[b"mint", u.as_ref(), wp.as_ref()], &SELF);
    let au = pda(&[b"authority", wm.as_ref()], &SELF);
    let es = pda(&[au.as_ref(), up.as_ref(), u.as_ref()], &ATA_PROG);
    check!(get_escrow_address(&u, &up, &wp) == es, "C19 addresses: escrow");
    let wm = pda(&[b"mint", u.as_ref(), wp.as_ref()], &fork);
    let au = pda(&[b"authority", wm.as_ref()], &fork);
    let es = pda(&[au.as_ref(), up.as_ref(), u.as_ref()], &ATA_PROG);
    check!(get_escrow_address_for_program(&u, &up, &wp, &fork) == es, "C19 addresses: escrow of a fork");
    cover!(true, "addresses exist");
}
