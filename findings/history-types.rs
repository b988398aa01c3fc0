//! H01: the history of a contract with two kinds of fungible state lists both, each with its own
//! total. Here reading the history crashes.
mod world;
use bp::seals::txout::CloseMethod;
use rgbstd::containers::ConsignmentExt;
use rgbstd::interface::*;
use rgbstd::*;
use strict_encoding::{fname, tn};
use world::*;

fn main() {
    let chain = Chain::default();
    let mut alice = stock();
    let seal = |v| {
        let o = outpoint(1, v);
        XChain::Bitcoin(GenesisSeal::with_blinding(CloseMethod::OpretFirst, o.txid, o.vout, 7))
    };
    let c = alice
        .contract_builder(Identity::default(), schema().schema_id(), iface().iface_id())
        .unwrap()
        .add_fungible_state(fname!("assetOwner"), seal(0), 100u64)
        .unwrap()
        .add_fungible_state(fname!("inflation"), seal(1), 10u64)
        .unwrap()
        .issue_contract()
        .unwrap();
    let id = c.contract_id();
    alice.import_contract(c, &chain).unwrap();
    let view = alice.contract_iface(id, tn!("DemoFace")).unwrap();
    let ops = view.history_fungible(&FilterIncludeAll, &FilterExclude(FilterIncludeAll));
    for op in &ops {
        println!("{:?} {} {:?}", op.direction, op.ty, op.state);
    }
    if ops.len() != 2 {
        std::process::exit(1);
    }
}
