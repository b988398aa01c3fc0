//! B02: two coins moved to seals which happen to be the same must not end up as one coin: with deterministic
//! blinding all coins of another contract go to the same seal.
mod world;
use amplify::none;
use bp::dbc::Method;
use bp::Vout;
use rgbstd::*;
use world::*;

fn main() {
    let chain = Chain::default();
    let mut alice = stock();
    let (a, b) = (outpoint(1, 0), outpoint(2, 0));
    let first = issue(&mut alice, &chain, &[(a, 1000)]);
    let _second = issue(&mut alice, &chain, &[(a, 500), (b, 70)]);
    let to = gseal(outpoint(9, 1), 5).to_secret_seal();
    let res = alice.compose_deterministic(
        &invoice(first, 300, to),
        [oseal(a), oseal(b)],
        Method::OpretFirst,
        None::<Vout>,
        0,
        |_, _, _| Some(Vout::from_u32(1)),
        |_, _| BlindingFactor::random(),
        |_, _| 7,
    );
    match res {
        Err(e) => println!("refused: {e}"),
        Ok(batch) => {
            let t = &batch.blanks[0].first.transition;
            let out: usize = t.assignments.values().map(|a| a.len_u16() as usize).sum();
            println!("{} coins in, {} coins out", t.inputs.len(), out);
            if out != t.inputs.len() {
                std::process::exit(1);
            }
        }
    }
}
