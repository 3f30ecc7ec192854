//! Ghost state: the assumed contracts of everything below token-wrap
//! (Solana runtime, CPI, PDA derivation, sysvars).
//!
//! The same code runs in two worlds:
//!  * under Kani (`cfg(kani)`): `any()` is an unconstrained symbolic value;
//!  * natively (replay): `any()` reads the verifier's counterexample.
#![allow(static_mut_refs)]

pub mod md;
pub type Key = [u8; 32];

// ---------------------------------------------------------------- inputs

#[cfg(kani)]
mod src {
    pub fn u8() -> u8 {
        kani::any()
    }
    pub fn u16() -> u16 {
        kani::any()
    }
    pub fn u64() -> u64 {
        kani::any()
    }
    pub fn bool() -> bool {
        kani::any()
    }
    pub fn key() -> [u8; 32] {
        kani::any()
    }
    pub fn bytes<const N: usize>() -> [u8; N] {
        kani::any()
    }
    pub fn assume(c: bool) {
        kani::assume(c)
    }
}

#[cfg(not(kani))]
mod src {
    //! Replay: values are read back in the order Kani drew them.
    use std::sync::Mutex;
    pub static STREAM: Mutex<(Vec<Vec<u8>>, usize)> = Mutex::new((Vec::new(), 0));
    fn next(n: usize) -> Vec<u8> {
        let mut s = STREAM.lock().unwrap();
        let i = s.1;
        s.1 += 1;
        match s.0.get(i) {
            Some(v) => {
                let mut v = v.clone();
                v.resize(n, 0);
                v
            }
            None => vec![0; n],
        }
    }
    pub fn u8() -> u8 {
        next(1)[0]
    }
    pub fn u16() -> u16 {
        u16::from_le_bytes(next(2).try_into().unwrap())
    }
    pub fn u64() -> u64 {
        u64::from_le_bytes(next(8).try_into().unwrap())
    }
    pub fn bool() -> bool {
        next(1)[0] != 0
    }
    pub fn key() -> [u8; 32] {
        bytes::<32>()
    }
    // Kani draws an array element by element.
    pub fn bytes<const N: usize>() -> [u8; N] {
        let mut a = [0u8; N];
        for x in a.iter_mut() {
            *x = next(1)[0];
        }
        a
    }
    pub fn assume(c: bool) {
        if !c {
            println!("REPLAY: assumption not met");
            std::process::exit(3);
        }
    }
    pub static FAILED: Mutex<Vec<&'static str>> = Mutex::new(Vec::new());
    pub fn failed(name: &'static str) {
        println!("REPLAY: FAILED {name}");
        FAILED.lock().unwrap().push(name);
    }
}
pub use src::*;

/// Whether the run decides the property an obligation belongs to (its first
/// three characters); a run without TW_PROP decides all of them.
pub const fn mine(name: &str) -> bool {
    match option_env!("TW_PROP") {
        Some(p) => {
            let (p, n) = (p.as_bytes(), name.as_bytes());
            p[0] == n[0] && p[1] == n[1] && p[2] == n[2]
        }
        None => true,
    }
}
/// The thorough tier also shows the less important executions to exist.
pub const MORE: bool = option_env!("TW_MORE").is_some();

/// A named obligation.
#[macro_export]
macro_rules! check {
    ($c:expr, $name:literal) => {{
        #[cfg(kani)]
        {
            const MINE: bool = $crate::mine($name);
            if MINE {
                let c: bool = $c;
                kani::assert(c, $name);
            }
        }
        #[cfg(not(kani))]
        let c: bool = $c;
        #[cfg(not(kani))]
        if !c {
            $crate::failed($name);
        }
    }};
}
/// A reachability obligation: some execution must get here (vacuity guard).
#[macro_export]
macro_rules! cover {
    ($c:expr, $name:literal) => {{
        #[cfg(kani)]
        kani::cover!($c, $name);
        #[cfg(not(kani))]
        let _ = $c;
    }};
}

#[macro_export]
macro_rules! more {
    ($c:expr, $name:literal) => {{
        #[cfg(kani)]
        if $crate::MORE {
            kani::cover!($c, $name);
        }
        #[cfg(not(kani))]
        let _ = $c;
    }};
}

// ---------------------------------------------------------------- runtime

/// A 32-byte key as two words: cheap to compare and to store.
#[derive(Clone, Copy)]
pub struct K(pub u128, pub u128);
pub const K0: K = K(0, 0);
impl K {
    pub fn of(k: &Key) -> K {
        let x = (k as *const Key) as *const u128;
        unsafe { K(x.read_unaligned(), x.add(1).read_unaligned()) }
    }
    pub fn key(&self) -> Key {
        let mut r = [0u8; 32];
        let x = (&mut r as *mut Key) as *mut u128;
        unsafe {
            x.write_unaligned(self.0);
            x.add(1).write_unaligned(self.1);
        }
        r
    }
    pub fn eq(&self, o: &K) -> bool {
        (self.0 == o.0) & (self.1 == o.1)
    }
}
pub fn keq(a: &Key, b: &Key) -> bool {
    K::of(a).eq(&K::of(b))
}

#[derive(Clone, Copy)]
pub struct TxAcct {
    pub key: K,
    pub signer: bool,
    pub writable: bool,
}
/// One account of a recorded operation.
#[derive(Clone, Copy)]
pub struct Meta {
    pub key: K,
    pub signer: bool,
    pub writable: bool,
    /// signed for by a PDA of token-wrap in this call
    pub pda: bool,
}
pub const M0: Meta = Meta { key: K0, signer: false, writable: false, pda: false };
pub const MAX_META: usize = 7;

pub const OTHER: u8 = 0;
pub const TRANSFER: u8 = 1;
pub const MINT_TO: u8 = 2;
pub const BURN: u8 = 3;
pub const CLOSE: u8 = 4;
pub const INIT_MINT: u8 = 5;
pub const ALLOCATE: u8 = 6;
pub const ASSIGN: u8 = 7;
pub const INIT_CT: u8 = 8;
pub const INIT_PTR: u8 = 9;
pub const INIT_DELEGATE: u8 = 11;
pub const INIT_STATE: u8 = 12;
pub const INIT_PAUSE: u8 = 13;
/// a metadata instruction; `amount` is its index in `md::MDOP`
pub const META: u8 = 10;

/// One successful cross-program call, decoded.
#[derive(Clone, Copy)]
pub struct Op {
    pub kind: u8,
    pub program: K,
    /// first bytes of the instruction data (OTHER)
    pub disc: u64,
    pub n: usize,
    pub m: [Meta; MAX_META],
    pub amount: u64,
    pub checked: bool,
    pub decimals: u8,
    pub has_fee: bool,
    pub fee: u64,
    pub k1: K,
    pub has_k2: bool,
    pub k2: K,
    /// number of signer-seed lists passed
    pub seeds: usize,
}
pub const O0: Op = Op { kind: OTHER, program: K0, disc: 0, n: 0, m: [M0; MAX_META], amount: 0, checked: false, decimals: 0,
    has_fee: false, fee: 0, k1: K0, has_k2: false, k2: K0, seeds: 0 };

pub const MAX_PDA: usize = 14;
/// seeds are at most 7 words of 16 bytes
pub const SEED_WORDS: usize = 7;
#[derive(Clone, Copy)]
pub struct Pda {
    pub program: K,
    pub len: usize,
    pub seed: [u128; SEED_WORDS],
    pub addr: K,
    pub bump: u8,
}
const P0: Pda = Pda { program: K0, len: 0, seed: [0; SEED_WORDS], addr: K0, bump: 0 };
pub const MAX_TX: usize = 12;
pub const MAX_OP: usize = 8;

pub struct Ghost {
    pub self_id: K,
    pub tx: [TxAcct; MAX_TX],
    pub n_tx: usize,
    pub op: [Op; MAX_OP],
    pub n_op: usize,
    pub pda: [Pda; MAX_PDA],
    pub n_pda: usize,
    pub epoch: u64,
    /// liveness harnesses: a refused call is a failure, not an aborted run
    pub strict: bool,
}
pub static mut G: Ghost = Ghost {
    self_id: K0,
    tx: [TxAcct { key: K0, signer: false, writable: false }; MAX_TX],
    n_tx: 0,
    op: [O0; MAX_OP],
    n_op: 0,
    pda: [P0; MAX_PDA],
    n_pda: 0,
    epoch: 0,
    strict: false,
};
pub fn g() -> &'static mut Ghost {
    unsafe { &mut *core::ptr::addr_of_mut!(G) }
}

pub fn register(key: Key, signer: bool, writable: bool) {
    let s = g();
    s.tx[s.n_tx] = TxAcct { key: K::of(&key), signer, writable };
    s.n_tx += 1;
}

/// Constant-bound loops, spelled so that a small unwinding bound suffices.
#[macro_export]
macro_rules! each {
    ($i:ident < $n:expr, $b:block) => {{
        let mut outer = 0;
        while outer < $n {
            let mut inner = 0;
            while inner < 4 {
                let $i = outer + inner;
                if $i < $n $b
                inner += 1;
            }
            outer += 4;
        }
    }};
}

/// Assumed contract of PDA derivation: a function of (concatenated seeds,
/// program), collision free, never a key a wallet can sign for.
pub fn find_pda(seeds: &[&[u8]], program: &Key) -> (Key, u8) {
    let mut seed = [0u128; SEED_WORDS];
    let bytes = &mut seed as *mut [u128; SEED_WORDS] as *mut u8;
    let mut len = 0;
    let mut i = 0;
    while i < seeds.len() {
        let s = seeds[i];
        let n = s.len();
        if n > 32 || len + n > 16 * SEED_WORDS {
            panic!("seeds too long");
        }
        unsafe { core::ptr::copy_nonoverlapping(s.as_ptr(), bytes.add(len), n) };
        len += n;
        i += 1;
    }
    let program = K::of(program);
    let st = g();
    let mut hit = false;
    let mut r_addr = K::of(&key());
    let mut r_bump = src::u8();
    each!(i < MAX_PDA, {
        if i < st.n_pda {
        let p = &st.pda[i];
        let mut same = (p.len == len) & p.program.eq(&program);
        let mut w = 0;
        while w < SEED_WORDS {
            same &= p.seed[w] == seed[w];
            w += 1;
        }
        // collision freedom of the hash
        assume(hit | same | !p.addr.eq(&r_addr));
        if same {
            r_addr = p.addr;
            r_bump = p.bump;
        }
        hit |= same;
        }
    });
    if program.eq(&st.self_id) {
        // nobody but token-wrap itself can sign for its PDAs
        each!(i < MAX_TX, {
            if i < st.n_tx {
                assume(!(st.tx[i].signer & st.tx[i].key.eq(&r_addr)));
            }
        });
    }
    assert!(st.n_pda < MAX_PDA, "vghost: too many derivations");
    st.pda[st.n_pda] = Pda { program, len, seed, addr: r_addr, bump: r_bump };
    st.n_pda += 1;
    (r_addr.key(), r_bump)
}

/// `create_program_address`: `None` stands for "not a valid PDA".
pub fn create_pda(seeds: &[&[u8]], program: &Key) -> Option<Key> {
    let k = seeds.len();
    if k > 0 && seeds[k - 1].len() == 1 {
        let (addr, bump) = find_pda(&seeds[..k - 1], program);
        if bump == seeds[k - 1][0] {
            return Some(addr);
        }
    }
    None
}

/// Signer seeds of a call, resolved to the addresses they sign for.
pub struct Signers {
    pub k: [K; 2],
    pub n: usize,
}
pub fn resolve_signers(seeds: &[&[&[u8]]]) -> Signers {
    let mut r = Signers { k: [K0; 2], n: seeds.len() };
    assert!(r.n <= 2, "vghost: too many signers");
    if r.n > 0 {
        let self_id = g().self_id.key();
        let mut i = 0;
        while i < 2 {
            if i < r.n {
                match create_pda(seeds[i], &self_id) {
                    Some(k) => r.k[i] = K::of(&k),
                    None => assume(false), // the runtime fails the transaction
                }
            }
            i += 1;
        }
    }
    r
}

/// Assumed contract of the runtime's CPI entry. A call that the runtime or the
/// callee refuses fails the whole transaction: control does not come back, so
/// nothing about such an execution is observable (`assume`). A call that comes
/// back had every privilege it asked for: privileges cannot be escalated.
pub fn privileges(op: &mut Op, s: &Signers) {
    let st = g();
    let mut ok = true;
    each!(i < MAX_META, {
        if i < op.n {
            let m = op.m[i];
            let mut signer = false;
            let mut writable = false;
            each!(j < MAX_TX, {
                if j < st.n_tx {
                    let same = st.tx[j].key.eq(&m.key);
                    signer |= same & st.tx[j].signer;
                    writable |= same & st.tx[j].writable;
                }
            });
            let pda = m.signer & (((s.n > 0) & s.k[0].eq(&m.key)) | ((s.n > 1) & s.k[1].eq(&m.key)));
            op.m[i].pda = pda;
            ok &= (!m.signer | signer | pda) & (!m.writable | writable);
        }
    });
    op.seeds = s.n;
    expect(ok);
}
/// What the runtime demands of a call: refused (the transaction fails) unless
/// `ok`; an honest transaction must not be refused.
pub fn expect(ok: bool) {
    check!(ok | !g().strict, "C22 the calls of an honest transaction are accepted by the runtime");
    assume(ok);
}
pub fn push(op: Op) {
    let st = g();
    assert!(st.n_op < MAX_OP, "vghost: too many calls");
    st.op[st.n_op] = op;
    st.n_op += 1;
}

/// Room behind an empty account's data, for `allocate`.
pub static mut CAP: [(*const u8, usize); 4] = [(core::ptr::null(), 0); 4];
pub static mut N_CAP: usize = 0;
pub fn add_capacity(base: *const u8, cap: usize) {
    unsafe {
        CAP[N_CAP] = (base, cap);
        N_CAP += 1;
    }
}
pub fn capacity(base: *const u8) -> usize {
    unsafe {
        let mut i = 0;
        while i < N_CAP {
            if CAP[i].0 == base {
                return CAP[i].1;
            }
            i += 1;
        }
    }
    0
}

/// Keys whose membership in a multisig the harness has fixed: 1 no, 2 yes.
pub static mut MEMBER: [(*const u8, u8); 3] = [(core::ptr::null(), 0); 3];
pub fn member(key: *const u8) -> u8 {
    unsafe {
        if key == MEMBER[0].0 {
            MEMBER[0].1
        } else if key == MEMBER[1].0 {
            MEMBER[1].1
        } else if key == MEMBER[2].0 {
            MEMBER[2].1
        } else {
            0
        }
    }
}

/// Return data left by the last CPI, as chosen by the harness.
pub static mut RET: Option<(Key, &'static [u8])> = None;
pub fn return_data() -> Option<(Key, Vec<u8>)> {
    unsafe { RET }.map(|(k, d)| (k, d.to_vec()))
}

// ---------------------------------------------------------------- token data

pub const MINT: u8 = 1;
pub const ACCOUNT: u8 = 2;
/// One extension a mint/account may carry; its value lives in an object of its
/// own (the verifier tracks small objects precisely).
#[derive(Clone, Copy)]
pub struct Slot {
    pub ty: u16,
    pub present: bool,
    pub val: &'static [u8],
}
pub const SLOT0: Slot = Slot { ty: 0, present: false, val: &[] };
/// What is known about one account's data buffer as a token mint/account.
#[derive(Clone, Copy)]
pub struct Buf {
    pub base: *const u8,
    pub tlv: *const u8,
    pub kind: u8,
    pub slots: [Slot; 3],
    /// one more entry, of any other type
    pub spare: Slot,
}
pub const MAX_TYPES: usize = 9;
pub const MAX_BUF: usize = 6;
pub static mut BUF: [Buf; MAX_BUF] = [Buf {
    base: core::ptr::null(),
    tlv: core::ptr::null(),
    kind: 0,
    slots: [SLOT0; 3],
    spare: SLOT0,
}; MAX_BUF];
pub static mut N_BUF: usize = 0;

pub fn add_buf(b: Buf) {
    unsafe {
        BUF[N_BUF] = b;
        N_BUF += 1;
    }
}
pub fn tlv_open(p: *const u8, kind: u8) -> bool {
    unsafe {
        let mut i = 0;
        while i < N_BUF {
            if BUF[i].base == p {
                return BUF[i].kind == kind;
            }
            i += 1;
        }
    }
    false
}
/// The value of the extension `ty` of `size` bytes; where it lives does not
/// depend on its presence.
pub fn tlv_lookup(p: *const u8, ty: u16, size: usize) -> (bool, &'static [u8]) {
    unsafe {
        let mut i = 0;
        while i < N_BUF {
            if BUF[i].tlv == p {
                let mut j = 0;
                while j < 3 {
                    let s = &BUF[i].slots[j];
                    if s.ty == ty {
                        return (s.present, s.val);
                    }
                    j += 1;
                }
                let s = &BUF[i].spare;
                if size <= s.val.len() {
                    return (s.present & (s.ty == ty), &s.val[..size]);
                }
                return (false, &[]);
            }
            i += 1;
        }
    }
    (false, &[])
}
/// The extension types of up to two buffers: the types that may be there, and
/// which of them are.
pub static mut TLV_OF: [*const u8; 2] = [core::ptr::null(); 2];
pub static mut TLV_TYPE: [[u16; MAX_TYPES]; 2] = [[0; MAX_TYPES]; 2];
pub static mut TLV_HAS: [[bool; MAX_TYPES]; 2] = [[false; MAX_TYPES]; 2];
pub fn tlv_index(p: *const u8) -> usize {
    unsafe {
        if p == TLV_OF[0] {
            0
        } else if p == TLV_OF[1] {
            1
        } else {
            2
        }
    }
}
/// The account extensions that the mint's extensions require, in TLV order.
pub static mut REQUIRED: [bool; 4] = [false; 4];
pub fn required(p: *const u8, i: usize) -> bool {
    unsafe {
        if i == 0 {
            check!(p == TLV_OF[1], "C12 close: the requirements are those of the unwrapped mint");
            assume(p == TLV_OF[1]);
        }
        REQUIRED[i]
    }
}
/// Type of the `k`-th entry of buffer `i`, 0 if there is none.
pub fn tlv_type(i: usize, k: usize) -> u16 {
    unsafe {
        if i < 2 && TLV_HAS[i][k] {
            TLV_TYPE[i][k]
        } else {
            0
        }
    }
}

pub const MAX_INFO: usize = 8;
pub const TOKEN_SPL: K = K(
    u128::from_le_bytes([6, 221, 246, 225, 215, 101, 161, 147, 217, 203, 225, 70, 206, 235, 121, 172]),
    u128::from_le_bytes([28, 180, 133, 237, 95, 91, 55, 145, 58, 140, 245, 133, 126, 255, 0, 169]),
);
pub const TOKEN_2022: K = K(
    u128::from_le_bytes([6, 221, 246, 225, 238, 117, 143, 222, 24, 66, 93, 188, 228, 108, 205, 218]),
    u128::from_le_bytes([182, 26, 252, 77, 131, 185, 13, 39, 254, 189, 249, 40, 216, 161, 139, 252]),
);

// ---------------------------------------------------------------- fees

#[derive(Clone, Copy)]
struct Fee {
    bps: u16,
    max: u64,
    amount: u64,
    fee: u64,
}
const MAX_FEE: usize = 4;
static mut FEE: [Fee; MAX_FEE] = [Fee { bps: 0, max: 0, amount: 0, fee: 0 }; MAX_FEE];
static mut N_FEE: usize = 0;
/// Assumed contract of `TransferFee::calculate_fee` (ceil(amount*bps/10000)
/// capped at max): a function of its inputs, zero for a zero rate or amount,
/// otherwise at least one unit (unless the cap is zero), never above the cap,
/// never above the amount for a rate of at most 100 %, the whole amount up to
/// the cap at 100 %.
pub fn fee(bps: u16, max: u64, amount: u64) -> Option<u64> {
    let mut f = u64();
    if (bps == 0) | (amount == 0) {
        f = 0;
    } else {
        assume(f <= max);
        assume((bps > 10000) | (f <= amount));
        assume((max == 0) | (f > 0));
        assume((bps != 10000) | (f == if amount < max { amount } else { max }));
    }
    unsafe {
        let mut i = 0;
        while i < MAX_FEE {
            if i < N_FEE {
                let e = FEE[i];
                if (e.bps == bps) & (e.max == max) & (e.amount == amount) {
                    f = e.fee;
                }
            }
            i += 1;
        }
        FEE[N_FEE] = Fee { bps, max, amount, fee: f };
        N_FEE += 1;
    }
    Some(f)
}

// ---------------------------------------------------------------- rent

const MAX_RENT: usize = 6;
static mut RENT: [(u64, u64); MAX_RENT] = [(0, 0); MAX_RENT];
static mut N_RENT: usize = 0;
/// Assumed contract of rent exemption: a monotone function of the data length.
pub fn rent(len: u64) -> u64 {
    let mut r = u64();
    unsafe {
        let mut i = 0;
        while i < MAX_RENT {
            if i < N_RENT {
                let (l, x) = RENT[i];
                if l == len {
                    r = x;
                }
            }
            i += 1;
        }
        let mut i = 0;
        while i < MAX_RENT {
            if i < N_RENT {
                let (l, x) = RENT[i];
                assume(if l <= len { x <= r } else { r <= x });
            }
            i += 1;
        }
        RENT[N_RENT] = (len, r);
        N_RENT += 1;
    }
    r
}
