//! S04: global state of a transition whose witness was dropped from the blockchain must not be
//! listed. Here reading the state crashes.
mod world;
use rgbstd::stl::*;
use rgbstd::vm::WitnessOrd;
use rgbstd::*;
use strict_encoding::{fname, tn, StrictSerialize};
use world::*;

fn main() {
    let chain = Chain::default();
    let mut alice = stock();
    let a = outpoint(1, 0);
    let id = issue(&mut alice, &chain, &[(a, 1000)]);
    let mut batch = pay(&alice, id, 300, gseal(outpoint(9, 1), 5).to_secret_seal(), &[a]);
    let name = DataState::from(Name::from("hello").to_strict_serialized::<0xFFFF>().unwrap());
    batch.main.first.transition.globals.add_state(NAME, name).unwrap();
    batch.set_priority(1);
    let (tx, f) = fascia(&[a], batch, 0);
    chain.add(&tx, mined(10));
    alice.consume_fascia(f, &chain).unwrap();
    let names = |stock: &rgbstd::persistence::Stock| {
        let view = stock.contract_iface(id, tn!("DemoFace")).unwrap();
        let n = view.global(fname!("name")).unwrap().count();
        n
    };
    println!("{} names", names(&alice));
    chain.ords.borrow_mut().insert(tx.txid(), WitnessOrd::Archived);
    alice.update_witnesses(&chain, 0).unwrap();
    let n = names(&alice);
    println!("{n} names without the transaction");
    if n != 0 {
        std::process::exit(1);
    }
}
