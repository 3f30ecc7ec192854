pub use solana_account_info::AccountInfo;
pub use solana_pubkey::Pubkey;
pub use vghost::*;
use core::cell::{Cell, RefCell};

pub const SPL_TOKEN: Pubkey = solana_pubkey::pubkey!("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");
pub const TOKEN_2022_ID: Pubkey = solana_pubkey::pubkey!("TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb");
pub const ATA_PROG: Pubkey = solana_pubkey::pubkey!("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL");
pub const SELF: Pubkey = spl_token_wrap::ID;

/// The layout of `Rc`'s heap block, so that an account can live in typed
/// memory the verifier tracks precisely.
#[repr(C)]
pub struct RcBlock<T> {
    strong: Cell<usize>,
    weak: Cell<usize>,
    v: RefCell<T>,
}
impl<T> RcBlock<T> {
    fn new(t: T) -> Self {
        RcBlock { strong: Cell::new(1000), weak: Cell::new(1000), v: RefCell::new(t) }
    }
    unsafe fn rc(&self) -> std::rc::Rc<RefCell<T>> {
        std::rc::Rc::from_raw(&self.v as *const RefCell<T>)
    }
}
static mut NO_LAMPORTS: u64 = 0;
/// One account as the runtime hands it to the program.
pub struct Acc<const N: usize> {
    pub key: Pubkey,
    pub owner: Pubkey,
    pub signer: bool,
    pub writable: bool,
    pub executable: bool,
    pub lamports: u64,
    pub data: [u8; N],
    rl: RcBlock<&'static mut u64>,
    rd: RcBlock<&'static mut [u8]>,
}
impl<const N: usize> Acc<N> {
    /// Any account at all, with a data buffer of N bytes.
    pub fn any() -> Self {
        Acc {
            key: Pubkey::new_from_array(key()),
            owner: Pubkey::new_from_array(key()),
            signer: bool(),
            writable: bool(),
            executable: bool(),
            lamports: u64(),
            data: bytes::<N>(),
            rl: RcBlock::new(unsafe { &mut *core::ptr::addr_of_mut!(NO_LAMPORTS) }),
            rd: RcBlock::new(&mut []),
        }
    }
    /// An account without data; `N` bytes can be allocated to it.
    pub fn fresh() -> Self {
        let mut a = Self::blank();
        a.key = Pubkey::new_from_array(key());
        a.owner = Pubkey::new_from_array(key());
        a.signer = bool();
        a.writable = bool();
        a.lamports = u64();
        a
    }
    pub fn blank() -> Self {
        Acc {
            key: Pubkey::new_from_array([0; 32]),
            owner: Pubkey::new_from_array([0; 32]),
            signer: false,
            writable: false,
            executable: false,
            lamports: 0,
            data: [0; N],
            rl: RcBlock::new(unsafe { &mut *core::ptr::addr_of_mut!(NO_LAMPORTS) }),
            rd: RcBlock::new(&mut []),
        }
    }
    pub fn fresh_info(&mut self) -> AccountInfo<'static> {
        add_capacity(self.data.as_ptr(), N);
        self.len(0)
    }
    /// Length of the data now.
    pub fn data_len(&self) -> usize {
        self.rd.v.borrow().len()
    }
    pub fn k(&self) -> K {
        K::of(self.key.as_array())
    }
    pub fn o(&self) -> K {
        K::of(self.owner.as_array())
    }
    pub fn len(&mut self, n: usize) -> AccountInfo<'static> {
        register(self.key.to_bytes(), self.signer, self.writable);
        unsafe {
            let me = &mut *(self as *mut Self);
            me.rl.v = RefCell::new(&mut (*(self as *mut Self)).lamports);
            me.rd.v = RefCell::new(core::slice::from_raw_parts_mut(core::ptr::addr_of_mut!((*(self as *mut Self)).data) as *mut u8, n));
            #[allow(deprecated)]
            AccountInfo {
                key: &(*(self as *mut Self)).key,
                lamports: me.rl.rc(),
                data: me.rd.rc(),
                owner: &(*(self as *mut Self)).owner,
                _unused: 0,
                is_signer: self.signer,
                is_writable: self.writable,
                executable: self.executable,
            }
        }
    }
    pub fn info(&mut self) -> AccountInfo<'static> {
        self.len(N)
    }
    /// Fills a place in a list of accounts beyond those passed.
    pub fn unused(&mut self) -> AccountInfo<'static> {
        let n = g().n_tx;
        let i = self.len(N);
        g().n_tx = n;
        i
    }
}
pub fn init() {
    let s = g();
    s.self_id = K::of(SELF.as_array());
    s.epoch = u64();
}

/// What the documented rent exemption of `len` bytes costs.
pub fn spec_rent(len: u64) -> u64 {
    rent(len)
}
/// No recorded operation is signed by a PDA other than `a` or `b`.
pub fn only_pda(a: &K, b: &K) -> bool {
    let s = g();
    let mut ok = true;
    let mut i = 0;
    while i < MAX_OP {
        let mut j = 0;
        while j < MAX_META {
            if i < s.n_op {
                let m = &s.op[i].m[j];
                ok &= (j >= s.op[i].n) | !m.pda | m.key.eq(a) | m.key.eq(b);
            }
            j += 1;
        }
        i += 1;
    }
    ok
}

// ------------------------------------------------------------- spec helpers

/// `bytes[at..at+8]`, little endian.
pub fn rd64(d: &[u8], at: usize) -> u64 {
    let mut a = [0u8; 8];
    a.copy_from_slice(&d[at..at + 8]);
    u64::from_le_bytes(a)
}
pub fn rd_k(d: &[u8], at: usize) -> K {
    let mut a = [0u8; 32];
    a.copy_from_slice(&d[at..at + 32]);
    K::of(&a)
}
pub fn tk(p: &Pubkey) -> K {
    K::of(p.as_array())
}

pub const FEE_TY: u16 = 1;
pub const HOOK_TY: u16 = 14;
pub const POINTER_TY: u16 = 18;
pub const META_TY: u16 = 19;
/// An account that may be a mint with any extensions.
pub struct MintAcc {
    pub acc: Acc<82>,
    pub has_fee: bool,
    pub fee: [u8; 108],
    pub has_hook: bool,
    pub hook: [u8; 64],
    pub has_ptr: bool,
    pub ptr: [u8; 64],
    pub other: [u8; 128],
    pub kind: u8,
}
unsafe fn forever<const N: usize>(a: &[u8; N]) -> &'static [u8] {
    &*(a as *const [u8; N])
}
impl MintAcc {
    pub fn any() -> Self {
        MintAcc {
            acc: Acc::any(),
            has_fee: bool(),
            fee: bytes(),
            has_hook: bool(),
            hook: bytes(),
            has_ptr: bool(),
            ptr: bytes(),
            other: bytes(),
            kind: u8(),
        }
    }
    pub fn info(&mut self) -> AccountInfo<'static> {
        unsafe {
            add_buf(Buf {
                base: self.acc.data.as_ptr(),
                tlv: self.acc.data[82..].as_ptr(),
                kind: self.kind,
                slots: [
                    Slot { ty: FEE_TY, present: self.has_fee, val: forever(&self.fee) },
                    Slot { ty: HOOK_TY, present: self.has_hook, val: forever(&self.hook) },
                    Slot { ty: POINTER_TY, present: self.has_ptr, val: forever(&self.ptr) },
                ],
                spare: Slot { ty: u16(), present: true, val: forever(&self.other) },
            });
        }
        self.acc.info()
    }
    pub fn k(&self) -> K {
        self.acc.k()
    }
    pub fn key(&self) -> &Pubkey {
        &self.acc.key
    }
    /// The invoking code can read it as an initialised mint.
    pub fn is_mint(&self) -> bool {
        (self.kind == MINT) & (self.acc.data[45] != 0)
    }
    pub fn hook_program(&self) -> K {
        rd_k(&self.hook, 32)
    }
    pub fn decimals(&self) -> u8 {
        self.acc.data[44]
    }
}
/// An account that may be a token account.
pub struct TokAcc {
    pub acc: Acc<165>,
    pub other: [u8; 64],
    pub kind: u8,
}
impl TokAcc {
    pub fn any() -> Self {
        TokAcc { acc: Acc::any(), other: bytes(), kind: u8() }
    }
    pub fn info(&mut self) -> AccountInfo<'static> {
        unsafe {
            add_buf(Buf {
                base: self.acc.data.as_ptr(),
                tlv: self.acc.data[165..].as_ptr(),
                kind: self.kind,
                slots: [SLOT0; 3],
                spare: Slot { ty: u16(), present: true, val: forever(&self.other) },
            });
        }
        self.acc.info()
    }
    pub fn k(&self) -> K {
        self.acc.k()
    }
    /// The invoking code can read it as an initialised token account.
    pub fn is_account(&self) -> bool {
        (self.kind == ACCOUNT) & ((self.acc.data[108] == 1) | (self.acc.data[108] == 2))
    }
    pub fn owner_field(&self) -> K {
        rd_k(&self.acc.data, 32)
    }
}

/// The documented derivations, spelled from the documentation, not the code.
pub fn spec_wrapped_mint(unwrapped: &Pubkey, wrapped_program: &Pubkey) -> K {
    K::of(&find_pda(&[b"mint", unwrapped.as_ref(), wrapped_program.as_ref()], SELF.as_array()).0)
}
pub fn spec_authority(wrapped_mint: &Pubkey) -> K {
    K::of(&find_pda(&[b"authority", wrapped_mint.as_ref()], SELF.as_array()).0)
}
pub fn spec_backpointer(wrapped_mint: &Pubkey) -> K {
    K::of(&find_pda(&[b"backpointer", wrapped_mint.as_ref()], SELF.as_array()).0)
}
pub fn spec_pointer(unwrapped: &Pubkey) -> K {
    K::of(&find_pda(&[b"canonical_pointer", unwrapped.as_ref()], SELF.as_array()).0)
}
pub fn spec_ata(owner: &Pubkey, mint: &Pubkey, program: &Pubkey) -> K {
    K::of(&find_pda(&[owner.as_ref(), program.as_ref(), mint.as_ref()], ATA_PROG.as_array()).0)
}
pub fn is_token_program(k: &K) -> bool {
    k.eq(&TOKEN_SPL) | k.eq(&TOKEN_2022)
}

/// The fee the token program withholds on a transfer of `amount` of this mint.
pub fn spec_fee(m: &MintAcc, amount: u64) -> u64 {
    if !m.has_fee {
        return 0;
    }
    let d = &m.fee;
    let newer = g().epoch >= rd64(d, 90);
    let (max_o, bps_o) = (rd64(d, 72 + 8), u16::from_le_bytes([d[88], d[89]]));
    let (max_n, bps_n) = (rd64(d, 90 + 8), u16::from_le_bytes([d[106], d[107]]));
    let max = if newer { max_n } else { max_o };
    let bps = if newer { bps_n } else { bps_o };
    // invariant kept by Token-2022: no rate above 100 %
    assume(bps <= 10000);
    fee(bps, max, amount).unwrap()
}

pub fn is_signer_of<const N: usize>(a: &Acc<N>, k: &K) -> bool {
    let mut hit = false;
    if N == 355 {
        let mut i = 0;
        while i < 11 {
            hit |= (i < a.data[1] as usize) & rd_k(&a.data, 3 + 32 * i).eq(k);
            i += 1;
        }
    }
    hit
}
