//! C03: spending an output to which another contract was once assigned by a transaction which is no
//! longer part of the blockchain must not crash: there is nothing of that contract to move.
mod world;
use rgbstd::vm::WitnessOrd;
use rgbstd::*;
use world::*;

fn main() {
    let chain = Chain::default();
    let mut alice = stock();
    let (a, b) = (outpoint(1, 0), outpoint(2, 0));
    let first = issue(&mut alice, &chain, &[(a, 1000)]);
    let second = issue(&mut alice, &chain, &[(b, 500)]);
    // 500 of the second contract come to `a`, where the first one lives
    let seal = gseal(a, 5);
    alice.store_secret_seal(seal).unwrap();
    let (tx, f) = fascia(&[b], pay(&alice, second, 500, seal.to_secret_seal(), &[b]), 0);
    chain.add(&tx, mined(10));
    alice.consume_fascia(f, &chain).unwrap();
    let t = alice.transfer(second, [], Some(seal.to_secret_seal())).unwrap();
    let t = t.validate(&chain, true).unwrap_or_else(|(s, _)| panic!("{s}"));
    alice.accept_transfer(t, &chain).unwrap();
    println!("{:?}", balance(&alice, second));
    // the transaction is replaced
    chain.ords.borrow_mut().insert(tx.txid(), WitnessOrd::Archived);
    alice.update_witnesses(&chain, 0).unwrap();
    println!("{:?}", balance(&alice, second));
    let batch = pay(&alice, first, 300, gseal(outpoint(9, 1), 5).to_secret_seal(), &[a]);
    println!("{} blanks", batch.blanks.len());
}
