//! B02: metadata given to a contract or transition builder must be in the built operation. Here the
//! schema requires them, and the issued contract is refused since the builder has dropped them.
mod world;
use amplify::{bmap, bset, tiny_bmap, tiny_bset};
use bp::dbc::Method;
use rgbstd::containers::*;
use rgbstd::interface::*;
use rgbstd::persistence::Stock;
use rgbstd::stl::*;
use rgbstd::*;
use strict_encoding::fname;
use world::*;

fn main() {
    let mut s = schema();
    s.genesis.metadata = tiny_bset! { NOTE };
    let mut f = iface();
    f.metadata = tiny_bmap! { fname!("note") => types().get("RGBContract.Name") };
    f.genesis.metadata = tiny_bset! { fname!("note") };
    let mut i = iimpl();
    i.schema_id = s.schema_id();
    i.iface_id = f.iface_id();
    i.metadata = tiny_bset! { NamedField::with(NOTE, fname!("note")) };
    let (schema_id, iface_id) = (s.schema_id(), f.iface_id());
    let kit = Kit {
        ifaces: tiny_bset! { f },
        schemata: tiny_bset! { s },
        iimpls: tiny_bset! { i },
        types: types().type_system(),
        ..Kit::default()
    };
    let mut stock = Stock::in_memory();
    stock.import_kit(kit.validate().unwrap_or_else(|_| panic!("kit"))).unwrap();
    let o = outpoint(1, 0);
    let seal = GenesisSeal::with_blinding(Method::OpretFirst, o.txid, o.vout, 3);
    let r = stock
        .contract_builder(Identity::default(), schema_id, iface_id)
        .unwrap()
        .add_asset_tag(fname!("inflation"), AssetTag::from([7u8; 32]))
        .unwrap()
        .add_metadata("note", Name::from("hello"))
        .unwrap()
        .add_fungible_state(fname!("assetOwner"), XChain::Bitcoin(seal), 1u64)
        .unwrap()
        .issue_contract();
    match r {
        Ok(c) => println!("{} metadata", c.genesis.metadata.len()),
        Err(e) => {
            println!("not issued: {e}");
            std::process::exit(1);
        }
    }
}
