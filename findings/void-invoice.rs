//! C02: an invoice which asks for no state must be refused and not crash the payer.
mod world;
use bp::dbc::Method;
use bp::Vout;
use rgbstd::invoice::*;
use rgbstd::*;
use world::*;

fn main() {
    let chain = Chain::default();
    let mut alice = stock();
    let a = outpoint(1, 0);
    let id = issue(&mut alice, &chain, &[(a, 1000)]);
    let mut invoice = invoice(id, 300, gseal(outpoint(9, 1), 5).to_secret_seal());
    invoice.owned_state = InvoiceState::Void;
    let text = invoice.to_string();
    println!("{text}");
    let invoice: RgbInvoice = text.parse().unwrap();
    let r = alice.compose(&invoice, [oseal(a)], Method::OpretFirst, None::<Vout>, |_, _, _| Some(Vout::from_u32(1)));
    println!("{}", r.unwrap_err());
}
