//! Ghost state of the metadata: the assumed contracts of the serialisers
//! (borsh, JSON) and of the metadata programs' instructions.
use crate::*;

/// A string of at most 32 bytes, as two words (longer ones: their first 32
/// bytes, their last 16 and their length).
#[derive(Clone, Copy)]
pub struct Str {
    pub len: usize,
    pub w: [u128; 2],
    pub end: u128,
}
pub const S0: Str = Str { len: 0, w: [0; 2], end: 0 };
impl Str {
    pub fn of(s: &[u8]) -> Str {
        let mut b = [0u8; 32];
        let n = s.len();
        each!(i < 32, {
            if i < n {
                b[i] = unsafe { *s.as_ptr().add(i) };
            }
        });
        let p = &b as *const [u8; 32] as *const u128;
        let w = unsafe { [p.read_unaligned(), p.add(1).read_unaligned()] };
        let end = if n > 32 { unsafe { (s.as_ptr().add(n - 16) as *const u128).read_unaligned() } } else { 0 };
        Str { len: s.len(), w, end }
    }
    pub fn eq(&self, o: &Str) -> bool {
        (self.len == o.len) & (self.w[0] == o.w[0]) & (self.w[1] == o.w[1]) & (self.end == o.end)
    }
}

pub const MAX_KV: usize = 5;
/// What a buffer holds as serialised token metadata.
#[derive(Clone, Copy)]
pub struct Md {
    pub base: *const u8,
    /// it deserialises
    pub ok: bool,
    pub auth: Key,
    pub mint: Key,
    pub name: &'static [u8],
    pub symbol: &'static [u8],
    pub uri: &'static [u8],
    pub n: usize,
    pub kv: [(&'static [u8], &'static [u8]); MAX_KV],
}
pub const MD0: Md = Md { base: core::ptr::null(), ok: false, auth: [0; 32], mint: [0; 32], name: &[], symbol: &[], uri: &[], n: 0, kv: [(&[], &[]); MAX_KV] };
/// 0: the unwrapped mint's own, 1: the wrapped mint's own, 2: return data.
/// (Objects of their own: the verifier keeps them apart precisely.)
pub static mut MD_OWN: Md = MD0;
pub static mut MD_WRAPPED: Md = MD0;
pub static mut MD_RET: Md = MD0;
/// Metadata without any text: only the authority tells the values apart.
pub static mut BARE: bool = false;
/// Content of the return data buffer that stands for `MD_RET`.
pub const RET_BYTES: [u8; 4] = [0xA7, 0x51, 0x0C, 0x3E];
/// Which of them a buffer holds; 3: none.
pub fn md(src: &[u8]) -> u8 {
    unsafe {
        if src.as_ptr() == MD_OWN.base {
            0
        } else if src.as_ptr() == MD_WRAPPED.base {
            1
        } else if src.len() == 4 && src[0] == RET_BYTES[0] && src[1] == RET_BYTES[1] && src[2] == RET_BYTES[2] && src[3] == RET_BYTES[3] {
            2
        } else {
            3
        }
    }
}

pub const MD_INIT: u8 = 1;
pub const MD_UPDATE: u8 = 2;
pub const MD_REMOVE: u8 = 3;
pub const MD_EMIT: u8 = 4;
pub const MD_CREATE_MPL: u8 = 5;
pub const MD_UPDATE_MPL: u8 = 6;
pub const MD_OTHER: u8 = 7;
/// The arguments of one serialised metadata instruction.
#[derive(Clone, Copy)]
pub struct MdOp {
    pub kind: u8,
    /// 0 name, 1 symbol, 2 URI, 3 `key`
    pub field: u8,
    pub key: Str,
    /// name / symbol / URI, or the new value
    pub val: [Str; 3],
    /// flags: remove: idempotent; emit: a range was given
    pub flag: bool,
    pub data: Data,
}
/// The arguments of a Metaplex instruction.
#[derive(Clone, Copy)]
pub struct Data {
    pub has: bool,
    pub fee: u16,
    pub creators: Creators,
    pub collection: Item,
    pub uses: Item,
    pub is_mutable: u8,
    pub details: bool,
    pub new_auth: bool,
    pub sale: u8,
}
/// Raw bytes of one structured value (at most 34).
#[derive(Clone, Copy)]
pub struct Item {
    pub some: bool,
    pub k: K,
    pub a: u64,
    pub b: u64,
}
pub const I0: Item = Item { some: false, k: K0, a: 0, b: 0 };
impl Item {
    pub fn eq(&self, o: &Item) -> bool {
        (self.some == o.some) & self.k.eq(&o.k) & (self.a == o.a) & (self.b == o.b)
    }
}
/// Metaplex allows at most five creators.
pub const MAX_CREATOR: usize = 5;
#[derive(Clone, Copy)]
pub struct Creators {
    pub some: bool,
    pub n: usize,
    pub c: [Item; MAX_CREATOR],
}
pub const C0: Creators = Creators { some: false, n: 0, c: [I0; MAX_CREATOR] };
pub const D0: Data = Data { has: false, fee: 0, creators: C0, collection: I0, uses: I0, is_mutable: 2, details: false, new_auth: false, sale: 2 };
pub const MDOP0: MdOp = MdOp { kind: 0, field: 0, key: S0, val: [S0; 3], flag: false, data: D0 };
pub const MAX_MDOP: usize = 8;
pub static mut MDOP: [MdOp; MAX_MDOP] = [MDOP0; MAX_MDOP];
pub static mut N_MDOP: usize = 0;
pub const MAGIC: u64 = u64::from_le_bytes(*b"\xF5MDOP\xA1\x07\x99");
/// The serialised form of an instruction: a reference to its arguments.
pub fn md_pack(op: MdOp) -> Vec<u8> {
    unsafe {
        let i = N_MDOP;
        MDOP[i] = op;
        N_MDOP += 1;
        let m = MAGIC.to_le_bytes();
        vec![m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], i as u8]
    }
}

// ---------------------------------------------------------------- Metaplex

/// What a buffer holds as a Metaplex metadata account.
#[derive(Clone, Copy)]
pub struct Mpl {
    pub base: *const u8,
    pub ok: bool,
    pub auth: Key,
    pub mint: Key,
    pub name: &'static [u8],
    pub symbol: &'static [u8],
    pub uri: &'static [u8],
    pub fee: u16,
    pub creators: Creators,
    pub sale: bool,
    pub mutable: bool,
    pub nonce: Option<u8>,
    pub standard: Option<u8>,
    pub collection: Item,
    pub uses: Item,
    pub details: Item,
    pub config: Item,
}
pub const MPL0: Mpl = Mpl { base: core::ptr::null(), ok: false, auth: [0; 32], mint: [0; 32], name: &[], symbol: &[], uri: &[], fee: 0,
    creators: C0, sale: false, mutable: false, nonce: None, standard: None, collection: I0, uses: I0, details: I0, config: I0 };
pub static mut MPL: Mpl = MPL0;
/// 1: only executions in which Metaplex metadata deserialises, 2: only those in
/// which none is read.
pub static mut MPL_ONLY: u8 = 0;
/// Does the buffer hold `MPL`?
pub fn mpl(src: &[u8]) -> bool {
    unsafe {
        let hit = (src.as_ptr() == MPL.base) & MPL.ok;
        if MPL_ONLY == 0 {
            hit
        } else {
            assume(hit & (MPL_ONLY == 1));
            true
        }
    }
}

// ---------------------------------------------------------------- JSON

/// One JSON text: the values it was made of, or is read as.
#[derive(Clone, Copy)]
pub struct Doc {
    /// the string a symbolic document has (two bytes); made ones are "J0", "J1", ...
    pub text: [u8; 2],
    pub ok: bool,
    pub list: bool,
    pub n: usize,
    pub c: [Item; MAX_CREATOR],
}
pub const DOC0: Doc = Doc { text: [0; 2], ok: false, list: false, n: 0, c: [I0; MAX_CREATOR] };
pub const MAX_DOC: usize = 10;
pub static mut DOC: [Doc; MAX_DOC] = [DOC0; MAX_DOC];
pub static mut N_DOC: usize = 0;
pub fn doc_new(mut d: Doc) -> [u8; 2] {
    unsafe {
        let i = N_DOC;
        d.text = [b'J', b'0' + i as u8];
        d.ok = true;
        DOC[i] = d;
        N_DOC += 1;
        DOC[i].text
    }
}
/// The document with this text.
pub fn doc(s: &[u8]) -> &'static Doc {
    unsafe {
        if s.len() == 2 {
            let mut i = 0;
            while i < MAX_DOC {
                if i < N_DOC && DOC[i].text[0] == s[0] && DOC[i].text[1] == s[1] {
                    return &DOC[i];
                }
                i += 1;
            }
        }
        &DOC0
    }
}
