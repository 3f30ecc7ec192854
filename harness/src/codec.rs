use crate::env::*;
use spl_token_wrap::error::TokenWrapError;
use spl_token_wrap::instruction::TokenWrapInstruction as I;
use solana_program_error::{ProgramError, ToStr};

/// The longest instruction data the runtime passes to a program.
const MAX_DATA: usize = 10240;

/// Any byte string of any length the runtime can pass.
#[cfg_attr(kani, kani::proof, kani::unwind(34))]
pub fn unpack() {
    let d = bytes::<MAX_DATA>();
    let n = u16() as usize;
    assume(n <= MAX_DATA);
    let r = I::unpack(&d[..n]);
    let le = u64::from_le_bytes([d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8]]);
    let valid = ((n == 2) & (d[0] == 0) & (d[1] <= 1))
        | ((n == 9) & ((d[0] == 1) | (d[0] == 2)))
        | ((n == 1) & (d[0] >= 3) & (d[0] <= 5))
        | ((n == 33) & (d[0] == 6));
    check!(r.is_ok() == valid, "C18 unpack: exactly the documented byte strings are instructions");
    match &r {
        Ok(I::CreateMint { idempotent }) => check!((d[0] == 0) & (*idempotent == (d[1] == 1)), "C18 unpack: CreateMint"),
        Ok(I::Wrap { amount }) => check!((d[0] == 1) & (*amount == le), "C18 unpack: Wrap"),
        Ok(I::Unwrap { amount }) => check!((d[0] == 2) & (*amount == le), "C18 unpack: Unwrap"),
        Ok(I::CloseStuckEscrow) => check!(d[0] == 3, "C18 unpack: CloseStuckEscrow"),
        Ok(I::SyncMetadataToToken2022) => check!(d[0] == 4, "C18 unpack: SyncMetadataToToken2022"),
        Ok(I::SyncMetadataToSplToken) => check!(d[0] == 5, "C18 unpack: SyncMetadataToSplToken"),
        Ok(I::SetCanonicalPointer { program_id }) => {
            check!((d[0] == 6) & tk(program_id).eq(&rd_k(&d, 1)), "C18 unpack: SetCanonicalPointer")
        }
        Err(e) => check!(*e == ProgramError::InvalidInstructionData, "C18 unpack: anything else is invalid instruction data"),
    }
    cover!(matches!(r, Ok(I::SetCanonicalPointer { .. })), "the longest instruction can be unpacked");
    cover!(r.is_err() & (n == MAX_DATA), "long garbage is refused");
    core::mem::forget(r);
}
fn round(i: I, want: &[u8]) {
    let p = i.pack();
    let mut same = p.len() == want.len();
    let mut j = 0;
    while j < 33 {
        if j < want.len() && j < p.len() {
            same &= p[j] == want[j];
        }
        j += 1;
    }
    check!(same, "C18 pack: the documented bytes");
    let back = I::unpack(want);
    check!(back == Ok(i), "C18 pack: unpacking gives the instruction back");
    core::mem::forget((p, back));
}
#[cfg_attr(kani, kani::proof, kani::unwind(34))]
pub fn pack() {
    let idem = bool();
    round(I::CreateMint { idempotent: idem }, &[0, idem as u8]);
    let a = u64();
    let b = a.to_le_bytes();
    round(I::Wrap { amount: a }, &[1, b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]);
    round(I::Unwrap { amount: a }, &[2, b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]);
    round(I::CloseStuckEscrow, &[3]);
    round(I::SyncMetadataToToken2022, &[4]);
    round(I::SyncMetadataToSplToken, &[5]);
    let k = key();
    let mut w = [6u8; 33];
    w[1..].copy_from_slice(&k);
    round(I::SetCanonicalPointer { program_id: Pubkey::new_from_array(k) }, &w);
    cover!(true, "every instruction can be packed");
}

fn code(e: TokenWrapError, n: u32, text: &str) {
    check!(ProgramError::from(e.clone()) == ProgramError::Custom(n), "C20 errors: the documented code");
    check!(TokenWrapError::try_from(n) == Ok(e.clone()), "C20 errors: the code names the error");
    check!(e.to_str() == text, "C20 errors: the log names the error");
}
#[cfg_attr(kani, kani::proof, kani::unwind(50))]
pub fn errors() {
    use TokenWrapError::*;
    code(WrappedMintMismatch, 0, "Error: WrappedMintMismatch");
    code(BackpointerMismatch, 1, "Error: BackpointerMismatch");
    code(ZeroWrapAmount, 2, "Error: ZeroWrapAmount");
    code(MintAuthorityMismatch, 3, "Error: MintAuthorityMismatch");
    code(EscrowOwnerMismatch, 4, "Error: EscrowOwnerMismatch");
    code(InvalidWrappedMintOwner, 5, "Error: InvalidWrappedMintOwner");
    code(InvalidBackpointerOwner, 6, "Error: InvalidBackpointerOwner");
    code(EscrowMismatch, 7, "Error: EscrowMismatch");
    code(EscrowInGoodState, 8, "Error: EscrowInGoodState");
    code(UnwrappedMintHasNoMetadata, 9, "Error: UnwrappedMintHasNoMetadata");
    code(MetaplexMetadataMismatch, 10, "Error: MetaplexMetadataMismatch");
    code(MetadataPointerMissing, 11, "Error: MetadataPointerMissing");
    code(MetadataPointerUnset, 12, "Error: MetadataPointerUnset");
    code(MetadataPointerMismatch, 13, "Error: MetadataPointerMismatch");
    code(ExternalProgramReturnedNoData, 14, "Error: ExternalProgramReturnedNoData");
    code(NoSyncingToToken2022, 15, "Error: NoSyncingToToken2022");
    let n = u64() as u32;
    check!(TokenWrapError::try_from(n).is_ok() == (n < 16), "C20 errors: no other code names an error");
    check!((n < 16) | (TokenWrapError::try_from(n) == Err(ProgramError::InvalidArgument)), "C20 errors: an unknown code is refused");
    cover!(n >= 16, "unknown codes exist");
}
