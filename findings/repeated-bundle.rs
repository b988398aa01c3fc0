//! V01: a consignment with the same bundle under two transactions must be rejected: only one of
//! the copies is validated, so the other transaction may be anything. Here the real transaction is
//! dropped from the blockchain but the payment stays valid due to the invented one.
mod world;
use rgbstd::containers::*;
use rgbstd::vm::WitnessOrd;
use rgbstd::*;
use world::*;

fn main() {
    let chain = Chain::default();
    let mut alice = stock();
    let a = outpoint(1, 0);
    let id = issue(&mut alice, &chain, &[(a, 1000)]);
    let bob_seal = gseal(outpoint(9, 1), 5);
    let (tx, f) = fascia(&[a], pay(&alice, id, 300, bob_seal.to_secret_seal(), &[a]), 0);
    chain.add(&tx, mined(10));
    alice.consume_fascia(f, &chain).unwrap();
    let mut t = alice.transfer(id, [], Some(bob_seal.to_secret_seal())).unwrap();

    // the copy must come before the original
    let wb = t.bundles.first().unwrap().clone();
    let (anchor, b) = wb.anchored_bundles().next().unwrap();
    let copy = (0..=255u8)
        .map(|n| {
            let pub_witness = XChain::Bitcoin(PubWitness::Txid(txid(n)));
            let client = ClientBundle::new(anchor.mpc_proof.clone(), anchor.dbc_proof.clone(), b.clone());
            (n, WitnessBundle::with(pub_witness, client))
        })
        .find(|(_, copy)| *copy < wb)
        .unwrap();
    chain.ords.borrow_mut().insert(txid(copy.0), mined(10));
    t.bundles.push(copy.1).unwrap();

    match t.validate(&chain, true) {
        Err((s, _)) => println!("rejected: {s}"),
        Ok(v) => {
            let mut bob = stock();
            bob.store_secret_seal(bob_seal).unwrap();
            bob.accept_transfer(v, &chain).unwrap();
            chain.ords.borrow_mut().insert(tx.txid(), WitnessOrd::Archived);
            bob.update_witnesses(&chain, 0).unwrap();
            println!("accepted, balance without the transaction: {:?}", balance(&bob, id));
            std::process::exit(1);
        }
    }
}
