//! V01: a consignment with a transition its bundle does not commit to must be rejected. The extra
//! transition repeats the payment, so that the receiver would see twice the amount.
mod world;
use std::collections::BTreeMap;

use amplify::confinement::Confined;
use rgbstd::containers::*;
use rgbstd::*;
use world::*;

fn main() {
    let chain = Chain::default();
    let mut alice = stock();
    let a = outpoint(1, 0);
    let id = issue(&mut alice, &chain, &[(a, 1000)]);
    let bob_seal = gseal(outpoint(9, 1), 5);
    let (tx, f) = fascia(&[a], pay(&alice, id, 300, bob_seal.to_secret_seal(), &[a]), 0);
    chain.add(&tx, mined(10));
    let honest = f.bundles[&id].first.known_transitions.values().next().unwrap().clone();
    alice.consume_fascia(f, &chain).unwrap();
    let mut t = alice.transfer(id, [], Some(bob_seal.to_secret_seal())).unwrap();

    let mut extra = honest.clone();
    extra.nonce = 5;
    let wb = t.bundles.first().unwrap().clone();
    let (anchor, b) = wb.anchored_bundles().next().unwrap();
    let mut b = b.clone();
    b.known_transitions =
        Confined::try_from(BTreeMap::from([(honest.id(), honest), (extra.id(), extra)])).unwrap();
    let copy = WitnessBundle::with(
        wb.pub_witness.clone(),
        ClientBundle::new(anchor.mpc_proof, anchor.dbc_proof, b),
    );
    t.bundles = Confined::try_from_iter([copy]).unwrap();

    match t.validate(&chain, true) {
        Err((s, _)) => println!("rejected: {s}"),
        Ok(v) => {
            let mut bob = stock();
            bob.store_secret_seal(bob_seal).unwrap();
            bob.accept_transfer(v, &chain).unwrap();
            println!("accepted, balance {:?}", balance(&bob, id));
            std::process::exit(1);
        }
    }
}
