//! C02: an invoice asking for an operation the interface does not have must be refused, not crash the payer.
mod world;
use bp::dbc::Method;
use bp::Vout;
use strict_encoding::FieldName;
use world::*;

fn main() {
    let chain = Chain::default();
    let mut alice = stock();
    let a = outpoint(1, 0);
    let id = issue(&mut alice, &chain, &[(a, 1000)]);
    let mut inv = invoice(id, 300, gseal(outpoint(9, 1), 5).to_secret_seal());
    inv.operation = Some(FieldName::from("nosuchOperation"));
    let res = alice.compose(&inv, [oseal(a)], Method::OpretFirst, None::<Vout>, |_, _, _| Some(Vout::from_u32(1)));
    match res {
        Err(e) => println!("refused: {e}"),
        Ok(_) => std::process::exit(1),
    }
}
