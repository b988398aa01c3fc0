//! B01: composing with a chosen priority must name each transition by its real id: wallets build
//! the bundles to commit to from these ids.
mod world;
use bp::dbc::Method;
use bp::Vout;
use rgbstd::*;
use world::*;

fn main() {
    let chain = Chain::default();
    let mut alice = stock();
    let a = outpoint(1, 0);
    let id = issue(&mut alice, &chain, &[(a, 1000)]);
    let bob = gseal(outpoint(9, 1), 5);
    let batch = alice
        .compose_deterministic(
            &invoice(id, 300, bob.to_secret_seal()),
            [oseal(a)],
            Method::OpretFirst,
            None::<Vout>,
            7,
            |_, _, _| Some(Vout::from_u32(1)),
            |_, _| BlindingFactor::random(),
            |_, _| 11,
        )
        .unwrap();
    for info in batch {
        println!("named {}, really {}", info.id, info.transition.id());
        if info.id != info.transition.id() {
            std::process::exit(1);
        }
    }
}
