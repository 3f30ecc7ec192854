use spl_token_2022_interface::extension::transfer_fee::TransferFee;
use vghost::*;

/// `TransferFee::calculate_fee`, for every configuration and amount.
fn any_fee() -> (u16, u64, u64, Option<u64>) {
    let bps = u16();
    let max = u64();
    let amount = u64();
    assume(bps <= 10000);
    let t = TransferFee { epoch: u64().into(), maximum_fee: max.into(), transfer_fee_basis_points: bps.into() };
    (bps, max, amount, t.calculate_fee(amount))
}
#[cfg_attr(kani, kani::proof)]
pub fn fee_bounds() {
    let (bps, max, amount, r) = any_fee();
    let f = r.unwrap_or(0);
    check!(((bps != 0) & (amount != 0)) | (f == 0), "C01 fee: no rate or no amount means no fee");
    check!(f <= max, "C01 fee: the fee is at most the maximum");
}
#[cfg_attr(kani, kani::proof)]
pub fn fee_some() {
    let (bps, max, amount, r) = any_fee();
    check!(r.is_some(), "C01 fee: a fee is always computed");
}
#[cfg_attr(kani, kani::proof)]
pub fn fee_one() {
    let (bps, max, amount, r) = any_fee();
    check!((bps == 0) | (amount == 0) | (max == 0) | (r != Some(0)), "C01 fee: any rate costs at least one unit");
}
/// Lemma: products split.
fn split(a: u64, b: u16) -> bool {
    let (a, b) = (a as u128, b as u128);
    a * b + a * (10000 - b) == a * 10000
}
#[cfg_attr(kani, kani::proof, kani::solver(cvc5))]
pub fn fee_lemma() {
    let (a, b) = (u64(), u16());
    assume(b <= 10000);
    check!(split(a, b), "C01 fee: lemma, the fee and the rest make up the amount");
}
#[cfg_attr(kani, kani::proof, kani::solver(cvc5))]
pub fn fee_amount() {
    let (bps, max, amount, r) = any_fee();
    assume(split(amount, bps)); // fee_lemma
    check!(r.unwrap_or(0) <= amount, "C01 fee: the fee is at most the amount");
}
#[cfg_attr(kani, kani::proof, kani::solver(cvc5))]
pub fn fee_all() {
    let max = u64();
    let amount = u64();
    let t = TransferFee { epoch: u64().into(), maximum_fee: max.into(), transfer_fee_basis_points: 10000.into() };
    let r = t.calculate_fee(amount);
    check!(r == Some(if amount < max { amount } else { max }), "C01 fee: at 100 % the fee is the amount, up to the maximum");
}
