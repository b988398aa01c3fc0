//! C01: a transfer asked for both the change output and the blinded seal of the same transition must
//! not crash.
mod world;
use rgbstd::*;
use world::*;

fn main() {
    let chain = Chain::default();
    let mut alice = stock();
    let a = outpoint(1, 0);
    let id = issue(&mut alice, &chain, &[(a, 1000)]);
    let bob = gseal(outpoint(9, 1), 5);
    let (tx, f) = fascia(&[a], pay(&alice, id, 300, bob.to_secret_seal(), &[a]), 0);
    chain.add(&tx, mined(10));
    alice.consume_fascia(f, &chain).unwrap();
    let change = bp::Outpoint::new(tx.txid(), bp::Vout::from_u32(1));
    let t = alice.transfer(id, [oseal(change)], Some(bob.to_secret_seal())).unwrap();
    println!("{} terminals", t.terminals.len());
    assert_eq!(t.terminals.len(), 1);
}
