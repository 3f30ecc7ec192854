use crate::env::*;
use spl_token_metadata_interface::state::TokenMetadata;
use spl_token_wrap::metadata::extract_token_metadata;
use spl_token_wrap::processor::process_instruction;
use vghost::md::*;

pub const MPL_ID: Pubkey = solana_pubkey::pubkey!("metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s");
unsafe fn forever<const N: usize>(a: &[u8; N]) -> &'static [u8] {
    &*(a as *const [u8; N])
}
/// Any text of N ASCII characters.
fn text<const N: usize>() -> [u8; N] {
    let a = bytes::<N>();
    let mut i = 0;
    while i < N {
        assume(a[i] < 0x80);
        i += 1;
    }
    a
}
/// Texts longer than six characters (any content): [source or wrapped][which].
static mut LONG: [[[u8; 210]; 4]; 2] = [[[0; 210]; 4]; 2];
fn long(who: usize) {
    unsafe {
        LONG[who] = [text(), text(), text(), text()];
    }
}
/// The metadata of one mint: texts of given lengths, any content; fields with
/// given keys.
pub struct Meta4 {
    text: [[u8; 6]; 3],
    len: [usize; 3],
    key: [&'static [u8]; MAX_KV],
    val: [[u8; 6]; MAX_KV],
    vlen: [usize; MAX_KV],
    n: usize,
    auth: [u8; 32],
    mint: [u8; 32],
    ok: bool,
    who: usize,
}
impl Meta4 {
    /// Any texts of these lengths, no fields.
    fn any(len: [usize; 3]) -> Self {
        Meta4 { text: [text(), text(), text()], len, key: [&[]; MAX_KV], val: [[0; 6]; MAX_KV], vlen: [0; MAX_KV], n: 0, auth: key(), mint: key(), ok: bool(), who: 0 }
    }
    /// Fields with these keys and any values of `vlen` characters.
    fn fields(&mut self, keys: &[&'static [u8]], vlen: usize) {
        let mut i = 0;
        while i < keys.len() {
            self.field(keys[i], text(), vlen);
            i += 1;
        }
    }
    fn field(&mut self, key: &'static [u8], val: [u8; 6], vlen: usize) {
        self.key[self.n] = key;
        self.val[self.n] = val;
        self.vlen[self.n] = vlen;
        self.n += 1;
    }
    /// No texts at all: only the authority tells the values apart.
    fn bare() -> Self {
        Meta4 { text: [[0; 6]; 3], len: [0; 3], key: [&[]; MAX_KV], val: [[0; 6]; MAX_KV], vlen: [0; MAX_KV], n: 0, auth: key(), mint: key(), ok: bool(), who: 0 }
    }
    fn t(&self, i: usize) -> &'static [u8] {
        unsafe { core::slice::from_raw_parts(if self.len[i] > 6 { LONG[self.who][i].as_ptr() } else { self.text[i].as_ptr() }, self.len[i]) }
    }
    fn v(&self, i: usize) -> &'static [u8] {
        unsafe { core::slice::from_raw_parts(if self.vlen[i] > 6 { LONG[self.who][3].as_ptr() } else { self.val[i].as_ptr() }, self.vlen[i]) }
    }
    fn put(&self, at: usize, base: *const u8) {
        unsafe {
            let kv = |i: usize| (self.key[i], self.v(i));
            let md = Md {
                base,
                ok: self.ok,
                auth: self.auth,
                mint: self.mint,
                name: self.t(0),
                symbol: self.t(1),
                uri: self.t(2),
                n: self.n,
                kv: [kv(0), kv(1), kv(2), kv(3), kv(4)],
            };
            if at == 0 {
                MD_OWN = md;
            } else if at == 1 {
                MD_WRAPPED = md;
            } else {
                MD_RET = md;
            }
        }
    }
    fn base(&self) -> [Str; 3] {
        [Str::of(self.t(0)), Str::of(self.t(1)), Str::of(self.t(2))]
    }
}
fn base_of(m: &TokenMetadata) -> [Str; 3] {
    [Str::of(m.name.as_bytes()), Str::of(m.symbol.as_bytes()), Str::of(m.uri.as_bytes())]
}
fn eq3(a: &[Str; 3], b: &[Str; 3]) -> bool {
    a[0].eq(&b[0]) & a[1].eq(&b[1]) & a[2].eq(&b[2])
}
/// An account that may be a mint with a metadata pointer and metadata.
pub struct MetaMint {
    pub acc: Acc<82>,
    pub has_ptr: bool,
    pub ptr: [u8; 64],
    pub has_md: bool,
    pub md: [u8; 8],
    pub kind: u8,
}
impl MetaMint {
    fn any() -> Self {
        MetaMint { acc: Acc::any(), has_ptr: bool(), ptr: bytes(), has_md: bool(), md: [0; 8], kind: u8() }
    }
    fn info(&mut self) -> AccountInfo<'static> {
        unsafe {
            add_buf(Buf {
                base: self.acc.data.as_ptr(),
                tlv: self.acc.data[82..].as_ptr(),
                kind: self.kind,
                slots: [
                    Slot { ty: POINTER_TY, present: self.has_ptr, val: forever(&self.ptr) },
                    Slot { ty: META_TY, present: self.has_md, val: forever(&self.md) },
                    SLOT0,
                ],
                spare: SLOT0,
            });
        }
        self.acc.info()
    }
    fn is_mint(&self) -> bool {
        (self.kind == MINT) & (self.acc.data[45] != 0)
    }
}
/// Which optional parts Metaplex metadata has.
#[derive(Clone, Copy)]
pub struct Shape {
    fee: u16,
    creators: Option<usize>,
    /// marked as verified
    collection: Option<bool>,
    /// the method
    uses: Option<u8>,
    details: bool,
    config: bool,
    nonce: Option<u8>,
    standard: Option<u8>,
    sale: bool,
    mutable: bool,
    /// long texts
    long: bool,
}
/// Longer than Metaplex allows (32, 10, 200).
const TALL: [usize; 3] = [36, 14, 204];
const PLAIN: Shape = Shape { fee: 0, creators: None, collection: None, uses: None, details: false, config: false, nonce: None, standard: None,
    sale: false, mutable: false, long: false };
fn any_creator() -> Item {
    Item { some: true, k: K::of(&key()), a: bool() as u64, b: u8() as u64 }
}
fn any_creators(n: Option<usize>) -> Creators {
    match n {
        None => C0,
        Some(n) => {
            let mut c = [I0; MAX_CREATOR];
            let mut i = 0;
            while i < n {
                c[i] = any_creator();
                i += 1;
            }
            Creators { some: true, n, c }
        }
    }
}
fn any_collection() -> Item {
    Item { some: true, k: K::of(&key()), a: bool() as u64, b: 0 }
}
fn any_uses() -> Item {
    let m = u8();
    assume(m < 3);
    Item { some: true, k: K(m as u128, 0), a: u64(), b: u64() }
}
/// Metaplex metadata.
pub struct MplM {
    name: [u8; 4],
    symbol: [u8; 3],
    uri: [u8; 5],
    m: Mpl,
    bare: bool,
    long: bool,
}
impl MplM {
    fn bare() -> Self {
        let mut m = MPL0;
        m.ok = bool();
        m.auth = key();
        m.mint = key();
        MplM { name: [0; 4], symbol: [0; 3], uri: [0; 5], m, bare: true, long: false }
    }
    /// Texts of any content; which optional parts there are is given.
    fn any(sh: &Shape) -> Self {
        let mut m = MPL0;
        m.ok = true;
        m.auth = key();
        m.mint = key();
        m.fee = sh.fee;
        m.sale = sh.sale;
        m.mutable = sh.mutable;
        m.nonce = sh.nonce;
        m.standard = sh.standard;
        m.creators = any_creators(sh.creators);
        if let Some(v) = sh.collection {
            m.collection = any_collection();
            m.collection.a = v as u64;
        }
        if let Some(v) = sh.uses {
            m.uses = any_uses();
            m.uses.k = K(v as u128, 0);
        }
        if sh.details {
            m.details = Item { some: true, k: K(1, 0), a: u64(), b: 0 };
        }
        if sh.config {
            m.config = Item { some: true, k: K::of(&key()), a: 1, b: 0 };
        }
        MplM { name: text(), symbol: text(), uri: text(), m, bare: false, long: sh.long }
    }
    fn put(&mut self, base: *const u8) {
        unsafe {
            self.m.base = base;
            if self.long {
                long(0);
                self.m.name = &LONG[0][0][..TALL[0]];
                self.m.symbol = &LONG[0][1][..TALL[1]];
                self.m.uri = &LONG[0][2][..TALL[2]];
            } else if !self.bare {
                self.m.name = forever(&self.name);
                self.m.symbol = forever(&self.symbol);
                self.m.uri = forever(&self.uri);
            }
            MPL = self.m;
        }
    }
    fn base(&self) -> [Str; 3] {
        [Str::of(self.m.name), Str::of(self.m.symbol), Str::of(self.m.uri)]
    }
}
fn spec_mpl(mint: &Pubkey) -> K {
    K::of(&find_pda(&[b"metadata", MPL_ID.as_ref(), mint.as_ref()], MPL_ID.as_array()).0)
}

/// Reading metadata with `n` further accounts given (source, owner program).
fn read(n: usize) -> (bool, bool, bool) {
    init();
    let mut mint = MetaMint::any();
    let own = Meta4::bare();
    let ret = Meta4::bare();
    let mut mpl = MplM::bare();
    let mut src = Acc::<8>::any();
    let mut prog = Acc::<0>::any();
    unsafe { BARE = true };
    own.put(0, mint.md.as_ptr());
    ret.put(2, core::ptr::null());
    mpl.put(src.data.as_ptr());
    let ret_prog = key();
    let ret_any = bool();
    unsafe { RET = if ret_any { Some((ret_prog, forever(&RET_BYTES))) } else { None } };
    let (i0, i1, i2) = (mint.info(), src.info(), prog.info());
    let at = spec_mpl(&mint.acc.key);
    let r = extract_token_metadata(&i0, if n > 0 { Some(&i1) } else { None }, if n > 1 { Some(&i2) } else { None });
    core::mem::forget((i0, i1, i2));
    let s = g();
    let o = mint.acc.o();
    let t22 = o.eq(&TOKEN_2022);
    let ptr = rd_k(&mint.ptr, 32);
    let has_ptr = t22 & mint.has_ptr;
    let self_ptr = has_ptr & ptr.eq(&mint.acc.k()) & !ptr.eq(&K0);
    let far = has_ptr & !ptr.eq(&K0) & !self_ptr & (n > 0) & src.k().eq(&ptr);
    let mpl_owner = src.o().eq(&tk(&MPL_ID));
    let genuine = o.eq(&TOKEN_SPL) | (t22 & mint.is_mint());
    // the three sources the mint may designate
    let from_own = genuine & self_ptr & mint.has_md & own.ok;
    let from_mpl = genuine & mpl.m.ok & mpl_owner & (n > 0) & ((!has_ptr & src.k().eq(&at)) | far);
    let from_ret = genuine & far & !mpl_owner & !src.o().eq(&TOKEN_2022) & (n > 1) & prog.k().eq(&src.o()) & ret_any
        & K::of(&ret_prog).eq(&src.o()) & ret.ok;
    check!(r.is_ok() == (from_own | from_mpl | from_ret), "C16 source: metadata is read exactly when the designated source is given");
    let ok = r.is_ok();
    if let Ok(m) = &r {
        let a: Option<Pubkey> = m.update_authority.clone().into();
        let a = match a {
            Some(k) => tk(&k),
            None => K0,
        };
        check!(!from_own | a.eq(&K::of(&own.auth)), "C16 source: a mint pointing to itself has its own metadata read");
        check!(!from_mpl | a.eq(&K::of(&mpl.m.auth)), "C16 source: the designated Metaplex account is read");
        check!(!from_ret | a.eq(&K::of(&ret.auth)), "C16 source: the designated program's answer is read");
        check!(s.n_op == from_ret as usize, "C16 source: no program is called but that of a third-party source");
        let a = s.op[0];
        check!(!from_ret | (a.program.eq(&src.o()) & (a.kind == META) & (a.n == 1) & a.m[0].key.eq(&ptr) & !a.m[0].signer & !a.m[0].writable),
            "C16 source: the owner of the source is asked for the source's metadata, with no privileges");
    }
    core::mem::forget(r);
    (from_own & ok, from_mpl & ok, from_ret & ok)
}
#[cfg_attr(kani, kani::proof, kani::unwind(17))]
pub fn read0() {
    let (own, _, _) = read(0);
    cover!(own, "own metadata can be read");
}
#[cfg_attr(kani, kani::proof, kani::unwind(17))]
pub fn read1() {
    let (own, mpl, _) = read(1);
    cover!(own, "own metadata can be read");
    cover!(mpl, "Metaplex metadata can be read");
}
#[cfg_attr(kani, kani::proof, kani::unwind(17))]
pub fn read2() {
    let (own, mpl, ret) = read(2);
    cover!(own, "own metadata can be read");
    cover!(mpl, "Metaplex metadata can be read");
    cover!(ret, "third-party metadata can be read");
}

// ---------------------------------------------------------------- sync to Token-2022

/// The metadata a program keeps, as its instructions change it.
struct Kept {
    base: [Str; 3],
    key: [Str; 6],
    val: [Str; 6],
    live: [bool; 6],
    n: usize,
    there: bool,
    bad: bool,
}
impl Kept {
    fn of(m: &Meta4) -> Kept {
        let mut k = Kept { base: m.base(), key: [S0; 6], val: [S0; 6], live: [false; 6], n: m.n, there: true, bad: false };
        let mut i = 0;
        while i < m.n {
            k.key[i] = Str::of(m.key[i]);
            k.val[i] = Str::of(m.v(i));
            k.live[i] = true;
            i += 1;
        }
        k
    }
    fn none() -> Kept {
        Kept { base: [S0; 3], key: [S0; 6], val: [S0; 6], live: [false; 6], n: 0, there: false, bad: false }
    }
    fn find(&self, key: &Str) -> usize {
        let mut at = 6;
        let mut j = 0;
        while j < 6 {
            if self.live[j] & self.key[j].eq(key) {
                at = j;
            }
            j += 1;
        }
        at
    }
    /// The documented effect of one instruction.
    fn apply(&mut self, o: &MdOp) {
        if o.kind == MD_INIT {
            self.bad |= self.there;
            self.there = true;
            self.base = o.val;
        } else if o.kind == MD_UPDATE {
            self.bad |= !self.there;
            if o.field < 3 {
                let mut f = 0;
                while f < 3 {
                    if o.field == f as u8 {
                        self.base[f] = o.val[0];
                    }
                    f += 1;
                }
            } else {
                let at = self.find(&o.key);
                let mut done = false;
                let mut j = 0;
                while j < 6 {
                    if (at == j) | ((at == 6) & !done & !self.live[j]) {
                        self.key[j] = o.key;
                        self.val[j] = o.val[0];
                        self.live[j] = true;
                        done = true;
                    }
                    j += 1;
                }
                self.bad |= !done;
            }
        } else if o.kind == MD_REMOVE {
            let at = self.find(&o.key);
            self.bad |= (at == 6) & !o.flag;
            let mut j = 0;
            while j < 6 {
                if at == j {
                    self.live[j] = false;
                }
                j += 1;
            }
        } else {
            self.bad = true;
        }
    }
}
const MINT_DATA: [u8; 82] = { let mut d = [0; 82]; d[45] = 1; d };
fn fixed<const N: usize>(a: &mut Acc<N>, key: u8, owner: &Pubkey) {
    a.key = Pubkey::new_from_array([key; 32]);
    a.owner = *owner;
}
/// A Token-2022 mint with its own metadata (or none).
fn t22_mint(key: u8, md: bool) -> MetaMint {
    let mut m = MetaMint::any();
    fixed(&mut m.acc, key, &TOKEN_2022_ID);
    m.kind = MINT;
    m.acc.data = MINT_DATA;
    m.has_ptr = true;
    m.ptr = [key; 64];
    m.has_md = md;
    m
}
/// A sync to a wrapped mint holding fields with the keys `w` (none: no metadata
/// yet) from a mint with fields `s`; all texts arbitrary. `len` and `vlen` are
/// the lengths of the wrapped mint's texts and values.
fn sync22(w: Option<&[&'static [u8]]>, s: &[&'static [u8]], len: [usize; 3], vlen: usize) {
    sync22_of(w, s, len, vlen, [4, 3, 5], 2)
}
fn sync22_of(w: Option<&[&'static [u8]]>, s: &[&'static [u8]], len: [usize; 3], vlen: usize, slen: [usize; 3], svlen: usize) {
    init();
    let mut wm = t22_mint(2, w.is_some());
    let mut um = t22_mint(1, true);
    let mut auth = Acc::<0>::any();
    let mut prog = Acc::<0>::any();
    fixed(&mut auth, 3, &SELF);
    fixed(&mut prog, 4, &SELF);
    prog.key = TOKEN_2022_ID;
    wm.acc.writable = true;
    let mut src = Meta4::any(slen);
    let mut old = Meta4::any(len);
    old.who = 1;
    if slen[0] > 6 {
        long(0);
        long(1);
    }
    src.fields(s, svlen);
    if let Some(w) = w {
        old.fields(w, vlen);
    }
    src.ok = true;
    old.ok = true;
    src.put(0, um.md.as_ptr());
    old.put(1, wm.md.as_ptr());
    let accts = [wm.info(), auth.info(), um.info(), prog.info()];
    let wk = spec_wrapped_mint(&um.acc.key, &TOKEN_2022_ID);
    let ak = spec_authority(&wm.acc.key);
    assume(wk.eq(&wm.acc.k()) & ak.eq(&auth.k()));
    g().strict = true;
    let r = process_instruction(&SELF, &accts, &[4]);
    core::mem::forget(accts);
    let g = g();
    check!(r.is_ok(), "C14 sync: a sync with the documented accounts succeeds");
    let mut kept = if w.is_some() { Kept::of(&old) } else { Kept::none() };
    let mut ok = true;
    let mut i = 0;
    while i < MAX_OP {
        if i < g.n_op {
            let o = &g.op[i];
            ok &= (o.kind == META) & o.program.eq(&TOKEN_2022) & o.m[0].key.eq(&wk) & o.m[1].key.eq(&ak);
            let d = unsafe { &MDOP[o.amount as usize & 7] };
            if d.kind == MD_INIT {
                ok &= (o.n == 4) & o.m[2].key.eq(&wk) & o.m[3].key.eq(&ak) & o.m[3].pda;
            } else {
                ok &= (o.n == 2) & o.m[1].pda;
            }
            kept.apply(d);
        }
        i += 1;
    }
    check!(ok & only_pda(&ak, &ak), "C03 sync: the authority signs only changes of its wrapped mint's metadata");
    check!(ok, "C14 sync: every instruction goes to Token-2022, for the wrapped mint, signed by its authority");
    check!(!kept.bad, "C14 sync: every instruction is one the wrapped mint's metadata accepts");
    check!(kept.there & eq3(&kept.base, &src.base()), "C14 sync: name, symbol and URI equal the source's");
    let mut all = true;
    let mut j = 0;
    while j < s.len() {
        let at = kept.find(&Str::of(src.key[j]));
        let mut hit = false;
        let mut x = 0;
        while x < 6 {
            hit |= (at == x) & kept.val[x].eq(&Str::of(src.v(j)));
            x += 1;
        }
        all &= hit;
        j += 1;
    }
    check!(all, "C14 sync: every additional field has the source's value");
    let mut none = true;
    let mut x = 0;
    while x < 6 {
        let mut known = false;
        let mut j = 0;
        while j < s.len() {
            known |= kept.key[x].eq(&Str::of(src.key[j]));
            j += 1;
        }
        none &= !kept.live[x] | known;
        x += 1;
    }
    check!(none, "C14 sync: no field remains that the source does not have");
    cover!(r.is_ok(), "a sync succeeds");
}
const A: &[u8] = b"ka";
const B: &[u8] = b"kb";
const C: &[u8] = b"kc";
const D: &[u8] = b"name";
const L: [usize; 3] = [4, 3, 5];
macro_rules! syncs {
    ($($name:ident $w:expr, $s:expr, $l:expr, $v:expr;)*) => {$(
        #[cfg_attr(kani, kani::proof, kani::unwind(17))]
        pub fn $name() {
            sync22($w, &$s, $l, $v)
        }
    )*};
}
syncs! {
    sync22_n None, [], L, 2;
    sync22_n_ab None, [A, B], L, 2;
    sync22_n_abcd None, [A, B, C, D], L, 2;
    sync22_0 Some(&[]), [], L, 2;
    sync22_0_len Some(&[]), [], [3, 4, 4], 2;
    sync22_0_ab Some(&[]), [A, B], L, 2;
    sync22_a Some(&[A]), [], L, 2;
    sync22_a_a Some(&[A]), [A], L, 2;
    sync22_a_a_len Some(&[A]), [A], [5, 2, 6], 3;
    sync22_a_b Some(&[A]), [B], L, 2;
    sync22_a_ba Some(&[A]), [B, A], L, 2;
    sync22_ab Some(&[A, B]), [], L, 2;
    sync22_ab_a Some(&[A, B]), [A], L, 2;
    sync22_ab_b Some(&[A, B]), [B], L, 2;
    sync22_ab_ba Some(&[A, B]), [B, A], L, 2;
    sync22_ab_bc Some(&[A, B]), [B, C], L, 2;
    sync22_ab_ca Some(&[A, B]), [C, A], L, 1;
    sync22_ab_cd Some(&[A, B]), [C, D], L, 2;
    sync22_abc Some(&[A, B, C]), [], L, 2;
    sync22_abc_cab Some(&[A, B, C]), [C, A, B], L, 2;
    sync22_abc_bd Some(&[D, B, C]), [B, A], L, 2;
}

// empty texts and values
macro_rules! empties {
    ($($name:ident $w:expr, $s:expr, $l:expr, $v:expr, $sl:expr, $sv:expr;)*) => {$(
        #[cfg_attr(kani, kani::proof, kani::unwind(17))]
        pub fn $name() {
            sync22_of($w, &$s, $l, $v, $sl, $sv)
        }
    )*};
}
const E: [usize; 3] = [0; 3];
empties! {
    sync22_e_n None, [A], L, 2, E, 0;
    sync22_e_0 Some(&[]), [A], L, 2, E, 0;
    sync22_e_new Some(&[A]), [A, B], L, 2, L, 0;
    sync22_e_old Some(&[A, B]), [B, A], E, 0, L, 2;
}
macro_rules! talls {
    ($($name:ident $w:expr, $s:expr, $l:expr, $v:expr, $sl:expr, $sv:expr;)*) => {$(
        #[cfg_attr(kani, kani::proof, kani::unwind(212))]
        pub fn $name() {
            sync22_of($w, &$s, $l, $v, $sl, $sv)
        }
    )*};
}
// long texts and values
talls! {
    sync22_tall_new None, [A], L, 2, TALL, 40;
    sync22_tall_old Some(&[A]), [A], TALL, 40, TALL, 40;
}

// ---------------------------------------------------------------- conversion

const FEE: &[u8] = b"seller_fee_basis_points";
const CREATORS: &[u8] = b"creators";
const COLLECTION: &[u8] = b"collection";
const USES: &[u8] = b"uses";
/// The value of the field with this key.
fn field<'a>(m: &'a TokenMetadata, key: &[u8]) -> Option<&'a [u8]> {
    let mut at = None;
    let mut i = 0;
    while i < m.additional_metadata.len() {
        if Str::of(m.additional_metadata[i].0.as_bytes()).eq(&Str::of(key)) {
            at = Some(m.additional_metadata[i].1.as_bytes());
        }
        i += 1;
    }
    at
}
fn one(v: Option<&[u8]>) -> Item {
    match v {
        None => I0,
        Some(v) => {
            let d = doc(v);
            if d.ok & !d.list & (d.n == 1) {
                d.c[0]
            } else {
                I0
            }
        }
    }
}
fn unverified(c: &Creators) -> bool {
    let mut ok = true;
    let mut i = 0;
    while i < MAX_CREATOR {
        ok &= c.c[i].a == 0;
        i += 1;
    }
    ok
}
fn same_creators(a: &Creators, b: &Creators) -> bool {
    let same = |x: &Item, y: &Item| x.k.eq(&y.k) & (x.b == y.b) & (x.some == y.some);
    let mut ok = (a.some == b.some) & (a.n == b.n);
    let mut i = 0;
    while i < MAX_CREATOR {
        ok &= same(&a.c[i], &b.c[i]);
        i += 1;
    }
    ok
}
fn decimal(x: u16) -> ([u8; 6], usize) {
    let mut d = [0u8; 6];
    let mut n = 0;
    let mut p: u32 = 10000;
    while p > 0 {
        let q = (x as u32 / p % 10) as u8;
        if n > 0 || q > 0 || p == 1 {
            d[n] = b'0' + q;
            n += 1;
        }
        p /= 10;
    }
    (d, n)
}
/// Metaplex metadata as Token-2022 metadata.
fn to_t22(sh: &Shape) {
    init();
    let mut mint = Acc::<0>::any();
    let mut acc = Acc::<8>::any();
    let mut src = MplM::any(sh);
    src.put(acc.data.as_ptr());
    let (mi, ai) = (mint.info(), acc.info());
    let r = spl_token_wrap::metaplex::metaplex_to_token_2022_metadata(&mi, &ai);
    core::mem::forget((mi, ai));
    check!(r.is_ok(), "C17 to Token-2022: readable Metaplex metadata can be converted");
    if let Ok(m) = &r {
        check!(eq3(&base_of(m), &src.base()), "C17 to Token-2022: name, symbol and URI are kept");
        let a: Option<Pubkey> = m.update_authority.clone().into();
        let none = K::of(&src.m.auth).eq(&K0);
        check!(match a { Some(k) => !none & tk(&k).eq(&K::of(&src.m.auth)), None => none }, "C17 to Token-2022: the update authority is kept");
        check!(tk(&m.mint).eq(&mint.k()), "C17 to Token-2022: the metadata names the mint");
        let (fee, n) = decimal(sh.fee);
        check!(match field(m, FEE) { Some(v) => Str::of(v).eq(&Str::of(&fee[..n])), None => false }, "C17 to Token-2022: the seller fee is kept");
        check!(one(field(m, COLLECTION)).eq(&src.m.collection), "C17 to Token-2022: the collection is kept");
        check!(one(field(m, USES)).eq(&src.m.uses), "C17 to Token-2022: the uses are kept");
        let got = match field(m, CREATORS) {
            None => C0,
            Some(v) => {
                let d = doc(v);
                check!(d.ok & d.list, "C17 to Token-2022: the creators are a list");
                Creators { some: true, n: d.n, c: d.c }
            }
        };
        check!(unverified(&got), "C17 to Token-2022: no creator is marked as verified");
        let want = if sh.creators == Some(0) { C0 } else { src.m.creators };
        check!(same_creators(&got, &want), "C17 to Token-2022: the creators and their shares are kept");
    }
    cover!(r.is_ok(), "metadata is converted");
    core::mem::forget(r);
}
/// Token-2022 metadata as Metaplex metadata; a field is absent, or there with
/// any value of its kind (`fee`: any decimal of that many digits).
#[derive(Clone, Copy)]
pub struct Own {
    fee: usize,
    /// any digits, or "65535"
    any: bool,
    creators: Option<usize>,
    collection: bool,
    uses: bool,
    other: bool,
    long: bool,
}
const NONE: Own = Own { fee: 0, any: true, creators: None, collection: false, uses: false, other: false, long: false };
fn doc_text(list: bool, n: usize, c: [Item; MAX_CREATOR]) -> [u8; 6] {
    let t = doc_new(Doc { text: [0; 2], ok: true, list, n, c });
    [t[0], t[1], 0, 0, 0, 0]
}
/// The metadata, the Metaplex data it stands for, and whether it stands for any.
fn any_own(o: &Own) -> (Meta4, Data, bool) {
    let mut m = Meta4::any(if o.long { TALL } else { [4, 3, 5] });
    if o.long {
        long(0);
    }
    m.ok = true;
    let mut d = D0;
    d.has = true;
    let mut good = true;
    if o.other {
        m.field(b"royalty", text(), 3);
    }
    if o.creators.is_some() {
        d.creators = any_creators(o.creators);
        m.field(CREATORS, doc_text(true, d.creators.n, d.creators.c), 2);
    }
    if o.fee > 0 {
        let t = if o.any { text::<6>() } else { *b"655350" };
        let mut v: u32 = 0;
        let mut i = 0;
        while i < o.fee {
            assume((t[i] >= b'0') & (t[i] <= b'9'));
            v = v * 10 + (t[i] - b'0') as u32;
            i += 1;
        }
        good &= v <= 65535;
        d.fee = v as u16;
        m.field(FEE, t, o.fee);
    }
    if o.uses {
        d.uses = any_uses();
        m.field(USES, doc_text(false, 1, [d.uses, I0, I0, I0, I0]), 2);
    }
    if o.collection {
        d.collection = any_collection();
        m.field(COLLECTION, doc_text(false, 1, [d.collection, I0, I0, I0, I0]), 2);
    }
    (m, d, good)
}
fn to_mpl(o: &Own) {
    init();
    let (m, want, good) = any_own(o);
    m.put(2, core::ptr::null());
    let t = <TokenMetadata as spl_type_length_value::variable_len_pack::VariableLenPack>::unpack_from_slice(&RET_BYTES).unwrap();
    let r = spl_token_wrap::metaplex::token_2022_metadata_to_metaplex(&t);
    core::mem::forget(t);
    check!(r.is_ok() == good, "C17 to Metaplex: metadata is converted exactly if its fee fits");
    cover!(r.is_ok(), "metadata is converted");
    if let Ok(d) = &r {
        let (base, got) = mpl_token_metadata::ghost::data_of(d);
        check!(eq3(&base, &m.base()), "C17 to Metaplex: name, symbol and URI are kept");
        check!(got.fee == want.fee, "C17 to Metaplex: the seller fee is kept");
        check!(unverified(&got.creators), "C17 to Metaplex: no creator is marked as verified");
        check!(same_creators(&got.creators, &want.creators), "C17 to Metaplex: the creators and their shares are kept");
        check!(got.collection.eq(&want.collection), "C17 to Metaplex: the collection is kept");
        check!(got.uses.eq(&want.uses), "C17 to Metaplex: the uses are kept");
    }
    core::mem::forget(r);
}

// ---------------------------------------------------------------- sync to classic

/// The accounts of a sync to a classic wrapped mint, with keys 1 (unwrapped),
/// 2 (wrapped), 3 (authority), 5 (Metaplex account), 6 (source).
struct Spl {
    um: MetaMint,
    wm: Acc<0>,
    auth: Acc<0>,
    md: Acc<8>,
    mpl: Acc<0>,
    sys: Acc<0>,
    rent: Acc<0>,
    src: Acc<8>,
}
impl Spl {
    fn any(exists: bool) -> Spl {
        let mut x = Spl { um: t22_mint(1, true), wm: Acc::any(), auth: Acc::any(), md: Acc::any(), mpl: Acc::any(), sys: Acc::any(), rent: Acc::any(), src: Acc::any() };
        fixed(&mut x.wm, 2, &SPL_TOKEN);
        fixed(&mut x.auth, 3, &SELF);
        fixed(&mut x.md, 5, if exists { &MPL_ID } else { &SELF });
        fixed(&mut x.mpl, 4, &SELF);
        fixed(&mut x.sys, 7, &SELF);
        fixed(&mut x.rent, 8, &SELF);
        fixed(&mut x.src, 6, &MPL_ID);
        x.mpl.key = MPL_ID;
        x.md.writable = true;
        x.auth.writable = true;
        x
    }
    fn run(&mut self, exists: bool, base: &[Str; 3], want: &Data, good: bool) {
        let accts = [self.md.len(if exists { 8 } else { 0 }), self.auth.info(), self.wm.info(), self.um.info(), self.mpl.info(), self.sys.info(), self.rent.info(), self.src.info()];
        let wk = spec_wrapped_mint(&self.um.acc.key, &SPL_TOKEN);
        let ak = spec_authority(&self.wm.key);
        let mk = spec_mpl(&self.wm.key);
        assume(wk.eq(&self.wm.k()) & ak.eq(&self.auth.k()) & mk.eq(&self.md.k()));
        g().strict = true;
        let r = process_instruction(&SELF, &accts, &[5]);
        core::mem::forget(accts);
        let g = g();
        check!(r.is_ok() == good, "C15 sync: a sync with the documented accounts succeeds");
        cover!(r.is_ok(), "a sync succeeds");
        if r.is_ok() {
            check!(g.n_op == 1, "C15 sync: exactly one call happens");
            let o = &g.op[0];
            let d = unsafe { &MDOP[0] };
            check!((g.n_op == 1) & (o.kind == META) & o.program.eq(&tk(&MPL_ID)) & o.m[0].key.eq(&mk), "C03 sync: the authority signs only the write of its wrapped mint's metadata");
            check!((o.kind == META) & o.program.eq(&tk(&MPL_ID)), "C15 sync: the call goes to Metaplex");
            check!(d.kind == if exists { MD_UPDATE_MPL } else { MD_CREATE_MPL }, "C15 sync: the metadata is created exactly if it does not exist");
            check!(o.m[0].key.eq(&mk) & o.m[0].writable, "C15 sync: the wrapped mint's Metaplex account is written");
            if exists {
                check!((o.n == 2) & o.m[1].key.eq(&ak) & o.m[1].pda, "C15 sync: the wrapped mint's authority signs");
                check!(!d.data.new_auth & (d.data.is_mutable == 2) & (d.data.sale == 2), "C15 sync: the authority and flags stay");
            } else {
                check!((o.n == 7) & o.m[1].key.eq(&wk), "C15 sync: the metadata is that of the wrapped mint");
                check!(o.m[2].key.eq(&ak) & o.m[2].pda & o.m[3].key.eq(&ak) & o.m[4].key.eq(&ak) & o.m[4].pda, "C15 sync: the wrapped mint's authority signs");
                check!((d.data.is_mutable == 1) & !d.data.details, "C15 sync: the metadata stays mutable");
            }
            check!(eq3(&d.val, base), "C15 sync: name, symbol and URI equal the source's");
            let x = &d.data;
            check!(x.has & (x.fee == want.fee), "C15 sync: the seller fee equals the source's");
            check!(unverified(&x.creators), "C17 sync: no creator is marked as verified");
            check!(same_creators(&x.creators, &want.creators), "C15 sync: creators and shares equal the source's");
            check!(x.collection.eq(&want.collection), "C15 sync: the collection equals the source's");
            check!(x.uses.eq(&want.uses), "C15 sync: the uses equal the source's");
            check!(only_pda(&ak, &ak), "C03 sync: no PDA but the authority signs");
        }
    }
}
/// From a mint with its own metadata.
fn syncspl_own(o: &Own, exists: bool) {
    init();
    let mut x = Spl::any(exists);
    let (m, want, good) = any_own(o);
    m.put(0, x.um.md.as_ptr());
    x.run(exists, &m.base(), &want, good);
}
/// From a mint that points to Metaplex metadata.
fn syncspl_mpl(sh: &Shape, exists: bool) {
    init();
    let mut x = Spl::any(exists);
    x.um.ptr = [6; 64];
    let mut src = MplM::any(sh);
    src.put(x.src.data.as_ptr());
    let mut want = D0;
    want.fee = sh.fee;
    want.creators = if sh.creators == Some(0) { C0 } else { src.m.creators };
    want.collection = src.m.collection;
    want.uses = src.m.uses;
    x.run(exists, &src.base(), &want, true);
}
macro_rules! tall_shapes {
    ($($name:ident $f:ident($($x:expr),*);)*) => {$(
        #[cfg_attr(kani, kani::proof, kani::unwind(212))]
        pub fn $name() {
            $f($($x),*)
        }
    )*};
}
tall_shapes! {
    to22_tall to_t22(&Shape { long: true, ..PLAIN });
    tompl_tall to_mpl(&Own { long: true, ..NONE });
    syncspl_tall_new syncspl_own(&Own { long: true, ..NONE }, false);
    syncspl_tall_old syncspl_own(&Own { long: true, ..NONE }, true);
}
macro_rules! shapes {
    ($($name:ident $f:ident($($x:expr),*);)*) => {$(
        #[cfg_attr(kani, kani::proof, kani::unwind(33))]
        pub fn $name() {
            $f($($x),*)
        }
    )*};
}
const FULL: Shape = Shape { fee: 550, creators: Some(2), collection: Some(true), uses: Some(1), details: true, config: true, nonce: Some(255), standard: Some(4),
    sale: true, mutable: true, long: false };
const ALL1: Own = Own { any: false, ..ALL };
const ALL: Own = Own { fee: 5, any: true, creators: Some(2), collection: true, uses: true, other: true, long: false };
shapes! {
    to22_plain to_t22(&PLAIN);
    to22_full to_t22(&FULL);
    to22_creator to_t22(&Shape { fee: 65535, creators: Some(1), nonce: Some(0), standard: Some(0), ..PLAIN });
    to22_empty to_t22(&Shape { fee: 10000, creators: Some(0), collection: Some(false), standard: Some(2), ..PLAIN });
    to22_uses to_t22(&Shape { fee: 7, creators: Some(2), uses: Some(2), config: true, ..PLAIN });
    tompl_none to_mpl(&NONE);
    tompl_all to_mpl(&ALL);
    tompl_creator to_mpl(&Own { fee: 3, creators: Some(1), ..NONE });
    tompl_empty to_mpl(&Own { fee: 1, creators: Some(0), collection: true, ..NONE });
    to22_five to_t22(&Shape { creators: Some(5), ..PLAIN });
    tompl_three to_mpl(&Own { creators: Some(3), ..NONE });
    tompl_five to_mpl(&Own { creators: Some(5), ..NONE });
    tompl_uses to_mpl(&Own { fee: 4, uses: true, other: true, ..NONE });
    syncspl_own_new syncspl_own(&ALL1, false);
    syncspl_own_old syncspl_own(&ALL1, true);
    syncspl_none_new syncspl_own(&NONE, false);
    syncspl_none_old syncspl_own(&NONE, true);
    syncspl_mpl_new syncspl_mpl(&FULL, false);
    syncspl_mpl_old syncspl_mpl(&FULL, true);
    syncspl_plain_new syncspl_mpl(&PLAIN, false);
    syncspl_plain_old syncspl_mpl(&PLAIN, true);
}

// ---------------------------------------------------------------- any accounts

/// A sync with any accounts whatever, of metadata without texts.
fn bind22(n: usize, exists: bool) {
    init();
    let mut um = MetaMint::any();
    let mut wm = MetaMint::any();
    wm.has_md = exists;
    wm.has_ptr = false;
    wm.kind = MINT;
    wm.acc.data = MINT_DATA;
    let own = Meta4::bare();
    let old = Meta4::bare();
    let ret = Meta4::bare();
    let mut mpl = MplM::bare();
    let mut auth = Acc::<0>::any();
    let mut prog = Acc::<0>::any();
    let mut src = Acc::<8>::any();
    let mut own_prog = Acc::<0>::any();
    unsafe {
        BARE = true;
        MPL_ONLY = 2;
    }
    own.put(0, um.md.as_ptr());
    old.put(1, wm.md.as_ptr());
    ret.put(2, core::ptr::null());
    mpl.put(src.data.as_ptr());
    let ret_prog = key();
    unsafe { RET = if bool() { Some((ret_prog, forever(&RET_BYTES))) } else { None } };
    let accts = [wm.info(), auth.info(), um.info(), prog.info(), src.info(), own_prog.info()];
    let wk = spec_wrapped_mint(&um.acc.key, &TOKEN_2022_ID);
    let ak = spec_authority(&wm.acc.key);
    let r = process_instruction(&SELF, &accts[..4 + n], &[4]);
    core::mem::forget(accts);
    let s = g();
    if r.is_ok() {
        check!(wm.acc.k().eq(&wk) & wm.acc.o().eq(&TOKEN_2022), "C14 accounts: the wrapped mint is the canonical one of the unwrapped mint, on Token-2022");
        check!(auth.k().eq(&ak), "C14 accounts: the authority is the wrapped mint's");
        let mut ok = true;
        let mut i = 0;
        while i < MAX_OP {
            if i < s.n_op {
                let o = &s.op[i];
                // reading a third-party source asks its program, unsigned
                let far = o.program.eq(&src.o()) & (o.n == 1) & !o.m[0].signer & !o.m[0].writable & o.m[0].key.eq(&src.k());
                let own = o.program.eq(&TOKEN_2022) & o.m[0].key.eq(&wk) & o.m[1].key.eq(&ak) & (o.kind == META);
                ok &= far | own;
            }
            i += 1;
        }
        check!(ok, "C03 sync: only the wrapped mint's metadata is changed, and its source asked without privileges");
        check!(ok, "C14 accounts: Token-2022 is told to change the wrapped mint, and nothing else happens");
        check!(only_pda(&ak, &ak), "C03 sync: no PDA but the authority signs");
    }
    cover!(r.is_ok(), "a sync succeeds");
}
/// The same towards a classic wrapped mint.
fn bindspl(n: usize) {
    init();
    let mut um = MetaMint::any();
    let mut wm = Acc::<0>::any();
    let own = Meta4::bare();
    let ret = Meta4::bare();
    let mut mpl = MplM::bare();
    let mut auth = Acc::<0>::any();
    let mut md = Acc::<8>::any();
    let mut prog = Acc::<0>::any();
    let mut sys = Acc::<0>::any();
    let mut rent = Acc::<0>::any();
    let mut src = Acc::<8>::any();
    let mut own_prog = Acc::<0>::any();
    unsafe {
        BARE = true;
        MPL_ONLY = 2;
    }
    own.put(0, um.md.as_ptr());
    ret.put(2, core::ptr::null());
    mpl.put(src.data.as_ptr());
    let ret_prog = key();
    unsafe { RET = if bool() { Some((ret_prog, forever(&RET_BYTES))) } else { None } };
    let exists = bool();
    let accts = [md.len(if exists { 8 } else { 0 }), auth.info(), wm.info(), um.info(), prog.info(), sys.info(), rent.info(), src.info(), own_prog.info()];
    let wk = spec_wrapped_mint(&um.acc.key, &SPL_TOKEN);
    let ak = spec_authority(&wm.key);
    let mk = spec_mpl(&wm.key);
    let r = process_instruction(&SELF, &accts[..7 + n], &[5]);
    core::mem::forget(accts);
    let s = g();
    if r.is_ok() {
        check!(wm.k().eq(&wk) & wm.o().eq(&TOKEN_SPL), "C15 accounts: the wrapped mint is the canonical one of the unwrapped mint, on the classic program");
        check!(auth.k().eq(&ak), "C15 accounts: the authority is the wrapped mint's");
        check!(md.k().eq(&mk), "C15 accounts: the Metaplex account is the wrapped mint's");
        let mut ok = true;
        let mut i = 0;
        while i < MAX_OP {
            if i < s.n_op {
                let o = &s.op[i];
                let far = o.program.eq(&src.o()) & (o.n == 1) & !o.m[0].signer & !o.m[0].writable & o.m[0].key.eq(&src.k());
                let own = o.program.eq(&tk(&MPL_ID)) & o.m[0].key.eq(&mk) & (o.kind == META) & (if exists { o.m[1].key.eq(&ak) } else { o.m[1].key.eq(&wk) & o.m[2].key.eq(&ak) });
                ok &= far | own;
            }
            i += 1;
        }
        check!(ok, "C03 sync: only the wrapped mint's metadata is written, and its source asked without privileges");
        check!(ok, "C15 accounts: Metaplex is told to write the wrapped mint's metadata, and nothing else happens");
        check!(only_pda(&ak, &ak), "C03 sync: no PDA but the authority signs");
    }
    cover!(r.is_ok(), "a sync succeeds");
}
macro_rules! binds {
    ($($name:ident $f:ident($($x:expr),*);)*) => {$(
        #[cfg_attr(kani, kani::proof, kani::unwind(17))]
        pub fn $name() {
            $f($($x),*)
        }
    )*};
}
binds! {
    bind22_0 bind22(0, false);
    bind22_2 bind22(2, false);
    bindspl_0 bindspl(0);
    bindspl_2 bindspl(2);
}
