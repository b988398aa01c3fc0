//! C02: paying one token out of an output holding two must keep the other one.
mod world;
use amplify::none;
use bp::dbc::Method;
use bp::Vout;
use rgbstd::containers::*;
use rgbstd::interface::*;
use rgbstd::invoice::*;
use rgbstd::stl::*;
use rgbstd::*;
use strict_encoding::{fname, tn, StrictSerialize};
use world::*;

fn main() {
    let chain = Chain::default();
    let mut alice = stock();
    let a = outpoint(1, 0);
    let mut b = alice
        .contract_builder(Identity::default(), schema().schema_id(), iface().iface_id())
        .unwrap()
        .add_asset_tag(fname!("inflation"), AssetTag::from([7u8; 32]))
        .unwrap();
    for n in [1u32, 2] {
        let seal = GenesisSeal::with_blinding(Method::OpretFirst, a.txid, a.vout, n as u64);
        b = b.add_data(fname!("token"), XChain::Bitcoin(seal), Allocation::with(n, 1u64)).unwrap();
    }
    let o = outpoint(2, 0);
    let seal = GenesisSeal::with_blinding(Method::OpretFirst, o.txid, o.vout, 3);
    b = b.add_fungible_state(fname!("assetOwner"), XChain::Bitcoin(seal), 1u64).unwrap();
    let c = b.issue_contract().unwrap_or_else(|e| panic!("{e}"));
    let id = c.contract_id();
    alice.import_contract(c, &chain).unwrap();

    let secret = match gseal(outpoint(9, 1), 5).to_secret_seal() {
        XChain::Bitcoin(s) => s,
        _ => unreachable!(),
    };
    let mut invoice = RgbInvoiceBuilder::new(XChainNet::bitcoin(invoice_net(), Beneficiary::BlindedSeal(secret)))
        .set_contract(id)
        .set_interface(tn!("DemoFace"))
        .finish();
    invoice.assignment = Some(fname!("token"));
    invoice.owned_state = InvoiceState::Data(NonFungible::RGB21(Allocation::with(1u32, 1u64)));
    let batch = alice
        .compose(&invoice, [oseal(a)], Method::OpretFirst, None::<Vout>, |_, _, _| Some(Vout::from_u32(1)))
        .unwrap();
    let t = &batch.main.first.transition;
    let out: usize = t.assignments.values().map(|a| a.len_u16() as usize).sum();
    println!("{} tokens in, {} tokens out", t.inputs.len(), out);
    if out != 2 {
        std::process::exit(1);
    }
}
