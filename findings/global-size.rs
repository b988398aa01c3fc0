//! S04: the number of global state items and the item at a depth must not depend on what was read before.
mod world;
use bp::dbc::Method;
use rgbstd::containers::*;
use rgbstd::*;
use rgbstd::vm::ContractStateAccess;
use strict_encoding::fname;
use world::*;

fn main() {
    let chain = Chain::default();
    let mut alice = stock();
    let mut b = alice
        .contract_builder(Identity::default(), schema().schema_id(), iface().iface_id())
        .unwrap()
        .add_asset_tag(fname!("inflation"), AssetTag::from([7u8; 32]))
        .unwrap();
    for n in ["First", "Second"] {
        b = b.add_global_state(fname!("name"), rgbstd::stl::Name::try_from(n).unwrap()).unwrap();
    }
    let o = outpoint(2, 0);
    let seal = GenesisSeal::with_blinding(Method::OpretFirst, o.txid, o.vout, 3);
    b = b.add_fungible_state(fname!("assetOwner"), XChain::Bitcoin(seal), 1u64).unwrap();
    let c = b.issue_contract().unwrap_or_else(|e| panic!("{e}"));
    let id = c.contract_id();
    alice.import_contract(c, &chain).unwrap();
    let state = alice.contract_state(id).unwrap();
    let mut names = state.global(NAME).unwrap();
    let size = names.size().to_u32();
    let second = names.nth(amplify::num::u24::ONE).is_some();
    println!("{size} items, the second is {}", if second { "found" } else { "missing" });
    let mut names = state.global(NAME).unwrap();
    names.next();
    let after = names.size().to_u32();
    println!("{after} items after reading one");
    if size != 2 || after != 2 || !second {
        std::process::exit(1);
    }
}
