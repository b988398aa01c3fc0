//! X02: when one output more cannot be put under a concealed seal, the outputs already known for it must stay known.
mod world;
use rgbstd::persistence::{IndexReadProvider, IndexWriteProvider, MemIndex, StoreTransaction};
use rgbstd::*;
use strict_encoding::StrictDumb;
use world::*;

fn main() {
    let mut index = MemIndex::in_memory();
    let contract = ContractId::strict_dumb();
    index.begin_transaction().unwrap();
    index.register_contract(contract).unwrap();
    let secret = gseal(outpoint(9, 1), 5).to_secret_seal();
    let vec = (0..300u32)
        .map(|_| Assign::<VoidState, GraphSeal>::ConfidentialSeal { seal: secret, state: Default::default(), lock: Default::default() })
        .collect::<Vec<_>>();
    let opid = OpId::strict_dumb();
    let witness = XChain::Bitcoin(txid(1));
    let ty = AssignmentType::with(1);
    index.index_transition_assignments(contract, &vec[..200], opid, ty, witness).unwrap();
    let before = index.opouts_by_terminals([secret]).unwrap().len();
    let res = index.index_transition_assignments(contract, &vec, opid, ty, witness);
    let after = index.opouts_by_terminals([secret]).unwrap().len();
    println!("added: {}, known before {before}, after {after}", res.is_ok());
    if after < before {
        std::process::exit(1);
    }
}
