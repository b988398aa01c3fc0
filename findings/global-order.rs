//! S04: reading a global state with more than one item must list all of them in the consensus order.
mod world;
use bp::dbc::Method;
use rgbstd::containers::*;
use rgbstd::interface::*;
use rgbstd::*;
use strict_encoding::{fname, tn};
use world::*;

fn main() {
    let chain = Chain::default();
    let mut alice = stock();
    let mut b = alice
        .contract_builder(Identity::default(), schema().schema_id(), iface().iface_id())
        .unwrap()
        .add_asset_tag(fname!("inflation"), AssetTag::from([7u8; 32]))
        .unwrap();
    for n in ["First", "Second"] {
        b = b.add_global_state(fname!("name"), rgbstd::stl::Name::try_from(n).unwrap()).unwrap();
    }
    let o = outpoint(2, 0);
    let seal = GenesisSeal::with_blinding(Method::OpretFirst, o.txid, o.vout, 3);
    b = b.add_fungible_state(fname!("assetOwner"), XChain::Bitcoin(seal), 1u64).unwrap();
    let c = b.issue_contract().unwrap_or_else(|e| panic!("{e}"));
    let id = c.contract_id();
    alice.import_contract(c, &chain).unwrap();
    let view = alice.contract_iface(id, tn!("DemoFace")).unwrap();
    let names = view.global(fname!("name")).unwrap().map(|v| v.to_string()).collect::<Vec<_>>();
    println!("{names:?}");
    if names.len() != 2 {
        std::process::exit(1);
    }
}
