use crate::env::*;
use spl_token_wrap::processor::process_instruction;

fn data(k: &[u8; 32]) -> [u8; 33] {
    let mut d = [6u8; 33];
    d[1..].copy_from_slice(k);
    d
}
/// SetCanonicalPointer on any four accounts; `len`: size of the pointer now.
fn set(len: usize) -> bool {
    init();
    let mut who = Acc::<0>::any();
    let mut ptr = if len == 0 { Acc::<32>::fresh() } else { Acc::<32>::any() };
    let mut umint = MintAcc::any();
    let mut sys = Acc::<0>::any();
    let new = key();
    // invariant of mints: an option tag is 0 or 1
    let m = umint.acc.data;
    assume((m[1] == 0) & (m[2] == 0) & (m[3] == 0) & (m[0] <= 1));
    assume((m[47] == 0) & (m[48] == 0) & (m[49] == 0) & (m[46] <= 1));
    let p0 = K::of(&ptr.data);
    let (lam, own) = (ptr.lamports, ptr.o());
    let accts = [who.info(), if len == 0 { ptr.fresh_info() } else { ptr.info() }, umint.info(), sys.info()];
    let need = spec_rent(32);
    let at = spec_pointer(umint.key());
    let genuine = is_token_program(&umint.acc.o());
    let authority = rd_k(&m, 4);
    let entitled = who.signer & (m[0] == 1) & authority.eq(&who.k());
    // a call by the mint authority, on a funded pointer
    let honest = entitled & genuine & ptr.k().eq(&at) & (umint.kind == MINT) & (m[45] != 0)
        & ((len > 0) | ((lam >= need) & ptr.writable & own.eq(&K0)));
    g().strict = honest;
    let r = process_instruction(&SELF, &accts, &data(&new));
    core::mem::forget(accts);
    let s = g();
    cover!(honest, "C13 an honest call exists");
    check!(!honest | r.is_ok(), "C13 pointer: the mint authority can always set the pointer");
    if r.is_ok() {
        check!(who.signer, "C13 pointer: only a signer can set the pointer");
        check!(m[0] == 1, "C13 pointer: a mint without authority has no pointer set");
        check!(authority.eq(&who.k()), "C13 pointer: only the current mint authority can set the pointer");
        check!(genuine, "C13 pointer: only mints of a genuine token program have pointers");
        check!((umint.kind == MINT) & (m[45] != 0), "C13 pointer: only an initialised mint has a pointer");
        check!(ptr.k().eq(&at), "C13 pointer: the pointer of a mint is at its canonical address only");
        check!(ptr.data_len() == 32, "C13 pointer: the pointer holds exactly one address");
        check!(K::of(&ptr.data).eq(&K::of(&new)), "C13 pointer: the pointer holds the requested program");
        if len == 0 {
            check!(lam >= need, "C13 pointer: a pointer that is not rent exempt is refused");
            let (a, b) = (s.op[0], s.op[1]);
            check!(s.n_op == 2, "C13 pointer: a new pointer is allocated and assigned, nothing else");
            check!((a.kind == ALLOCATE) & (b.kind == ASSIGN), "C13 pointer: a new pointer is allocated, then assigned");
            check!(a.m[0].key.eq(&at) & (a.amount == 32) & a.m[0].pda, "C13 pointer: 32 bytes are allocated at the canonical address");
            check!(b.m[0].key.eq(&at) & b.k1.eq(&tk(&SELF)) & b.m[0].pda, "C13 pointer: the pointer belongs to token-wrap");
        } else {
            check!(s.n_op == 0, "C13 pointer: updating a pointer calls nothing");
        }
        check!(only_pda(&at, &at), "C03 pointer: no PDA but the pointer's own signs");
        let mut same = ptr.lamports == lam;
        let mut i = 0;
        while i < 10 {
            same &= rd64(&umint.acc.data, 8 * i) == rd64(&m, 8 * i);
            i += 1;
        }
        check!(same, "C13 pointer: nothing but the pointer changes");
    } else if len > 0 {
        check!(K::of(&ptr.data).eq(&p0), "C13 pointer: a refused update leaves the pointer as it was");
        check!(s.n_op == 0, "C13 pointer: a refused update calls nothing");
    }
    r.is_ok()
}
#[cfg_attr(kani, kani::proof, kani::unwind(34))]
pub fn create() {
    let ok = set(0);
    cover!(ok, "a pointer can be created");
}
#[cfg_attr(kani, kani::proof, kani::unwind(17))]
pub fn update() {
    let ok = set(32);
    cover!(ok, "a pointer can be updated");
}
