//! J07: an amount which does not fit must be refused, and an approximate amount must keep its
//! fraction.
mod world;
use rgbinvoice::{Amount, InvoiceState, Precision, RgbInvoiceBuilder};
use world::*;

fn main() {
    let chain = Chain::default();
    let mut alice = stock();
    let id = issue(&mut alice, &chain, &[(outpoint(1, 0), 1000)]);
    let inv = invoice(id, 7, gseal(outpoint(2, 0), 5).to_secret_seal());
    let b = || RgbInvoiceBuilder::with(id, inv.beneficiary);
    let a = unsafe { b().set_amount_approx(1.5, Precision::Centi) }.unwrap().finish();
    println!("{:?}", a.owned_state);
    assert_eq!(a.owned_state, InvoiceState::Amount(Amount::from(150u64)));
    assert!(b().set_amount(u64::MAX, 0, Precision::Centi).is_err());
    assert!(b().set_amount(184467440737095516, 99, Precision::Centi).is_err());
    assert!(b().set_amount(184467440737095516, 15, Precision::Centi).is_ok());
}
