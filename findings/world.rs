// A stock with one fungible schema and interface, contracts issued under it and
// transfers anchored to made-up transactions.
#![allow(dead_code, unused_imports)]
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::num::NonZeroU32;

use amplify::confinement::{Confined, NonEmptyOrdMap, TinyOrdMap, TinyOrdSet};
use amplify::{bmap, bset, none, tiny_bmap, tiny_bset, ByteArray, Wrapper};
use bp::dbc::opret::OpretProof;
use bp::dbc::{Anchor, Method};
use bp::seals::txout::CloseMethod;
use bp::{LockTime, Outpoint, Sats, ScriptPubkey, SeqNo, SigScript, Tx, TxIn, TxOut, TxVer, Txid, Vout, Witness};
use commit_verify::{mpc, CommitId, CommitmentId, TryCommitVerify};
use rgbstd::containers::*;
use rgbstd::interface::*;
use rgbstd::invoice::*;
use rgbstd::persistence::*;
use rgbstd::stl::{rgb_contract_stl, StandardTypes};
use rgbstd::validation::{ResolveWitness, WitnessResolverError};
use rgbstd::vm::{WitnessOrd, WitnessPos, XWitnessTx};
use rgbstd::*;
use strict_encoding::{fname, tn, FieldName, TypeName};
use strict_types::TypeSystem;

pub const OWNER: AssignmentType = AssignmentType::with(4000);
pub const RIGHTS: AssignmentType = AssignmentType::with(4001);
pub const TOKEN: AssignmentType = AssignmentType::with(4002);
pub const INFLATION: AssignmentType = AssignmentType::with(4003);
pub const NOTE: MetaType = MetaType::with(3000);
pub const NAME: GlobalStateType = GlobalStateType::with(2000);
pub const TRANSFER: TransitionType = TransitionType::with(10000);

pub fn types() -> StandardTypes { StandardTypes::with(rgb_contract_stl()) }

pub fn schema() -> Schema {
    let t = types();
    let name = t.get("RGBContract.Name");
    Schema {
        ffv: none!(),
        flags: none!(),
        name: tn!("DemoSchema"),
        timestamp: 1700000000,
        developer: Identity::default(),
        meta_types: tiny_bmap! { NOTE => name },
        global_types: tiny_bmap! { NAME => GlobalStateSchema::many(name) },
        owned_types: tiny_bmap! {
            OWNER => OwnedStateSchema::Fungible(FungibleType::Unsigned64Bit),
            RIGHTS => OwnedStateSchema::Declarative,
            TOKEN => OwnedStateSchema::Structured(t.get("RGBContract.Allocation")),
            INFLATION => OwnedStateSchema::Fungible(FungibleType::Unsigned64Bit),
        },
        valency_types: none!(),
        genesis: GenesisSchema {
            metadata: none!(),
            globals: tiny_bmap! { NAME => Occurrences::NoneOrMore },
            assignments: tiny_bmap! { OWNER => Occurrences::NoneOrMore, RIGHTS => Occurrences::NoneOrMore, TOKEN => Occurrences::NoneOrMore, INFLATION => Occurrences::NoneOrMore },
            valencies: none!(),
            validator: None,
        },
        extensions: none!(),
        transitions: tiny_bmap! {
            TRANSFER => TransitionSchema {
                metadata: none!(),
                globals: tiny_bmap! { NAME => Occurrences::NoneOrMore },
                inputs: tiny_bmap! { OWNER => Occurrences::NoneOrMore, RIGHTS => Occurrences::NoneOrMore, TOKEN => Occurrences::NoneOrMore, INFLATION => Occurrences::NoneOrMore },
                assignments: tiny_bmap! { OWNER => Occurrences::NoneOrMore, RIGHTS => Occurrences::NoneOrMore, TOKEN => Occurrences::NoneOrMore, INFLATION => Occurrences::NoneOrMore },
                valencies: none!(),
                validator: None,
            },
        },
        reserved: none!(),
    }
}

pub fn iface() -> Iface {
    Iface {
        version: VerNo::V1,
        name: tn!("DemoFace"),
        inherits: none!(),
        timestamp: 1700000000,
        metadata: none!(),
        global_state: tiny_bmap! { fname!("name") => GlobalIface::any(Req::NoneOrMore) },
        assignments: tiny_bmap! {
            fname!("assetOwner") => AssignIface::public(OwnedIface::Amount, Req::OneOrMore),
            fname!("admin") => AssignIface::public(OwnedIface::Rights, Req::NoneOrMore),
            fname!("token") => AssignIface::public(OwnedIface::Any, Req::NoneOrMore),
            fname!("inflation") => AssignIface::public(OwnedIface::Amount, Req::NoneOrMore),
        },
        valencies: none!(),
        genesis: GenesisIface {
            modifier: Modifier::Final,
            metadata: none!(),
            globals: none!(),
            assignments: tiny_bmap! { fname!("assetOwner") => Occurrences::OnceOrMore },
            valencies: none!(),
            errors: none!(),
        },
        transitions: tiny_bmap! {
            fname!("transfer") => TransitionIface {
                modifier: Modifier::Final,
                optional: false,
                metadata: none!(),
                globals: none!(),
                inputs: tiny_bmap! { fname!("assetOwner") => Occurrences::OnceOrMore },
                assignments: tiny_bmap! { fname!("assetOwner") => Occurrences::OnceOrMore },
                valencies: none!(),
                errors: none!(),
                default_assignment: Some(fname!("assetOwner")),
            },
        },
        extensions: none!(),
        default_operation: Some(fname!("transfer")),
        errors: none!(),
        developer: Identity::default(),
    }
}

pub fn iimpl() -> IfaceImpl {
    IfaceImpl {
        version: VerNo::V1,
        schema_id: schema().schema_id(),
        iface_id: iface().iface_id(),
        timestamp: 1700000000,
        metadata: none!(),
        global_state: tiny_bset! { NamedField::with(NAME, fname!("name")) },
        assignments: tiny_bset! {
            NamedField::with(OWNER, fname!("assetOwner")),
            NamedField::with(RIGHTS, fname!("admin")),
            NamedField::with(TOKEN, fname!("token")),
            NamedField::with(INFLATION, fname!("inflation")),
        },
        valencies: none!(),
        transitions: tiny_bset! { NamedField::with(TRANSFER, fname!("transfer")) },
        extensions: none!(),
        errors: none!(),
        developer: Identity::default(),
    }
}

pub fn kit() -> Kit {
    Kit {
        ifaces: tiny_bset! { iface() },
        schemata: tiny_bset! { schema() },
        iimpls: tiny_bset! { iimpl() },
        types: types().type_system(),
        ..Kit::default()
    }
}

#[derive(Default)]
pub struct Chain {
    pub txs: RefCell<BTreeMap<Txid, Tx>>,
    pub ords: RefCell<BTreeMap<Txid, WitnessOrd>>,
    pub asked: RefCell<Vec<Txid>>,
}
impl Chain {
    pub fn add(&self, tx: &Tx, ord: WitnessOrd) {
        self.txs.borrow_mut().insert(tx.txid(), tx.clone());
        self.ords.borrow_mut().insert(tx.txid(), ord);
    }
}
pub fn mined(h: u32) -> WitnessOrd {
    WitnessOrd::Mined(WitnessPos::bitcoin(NonZeroU32::new(h).unwrap(), 1650000000 + h as i64).unwrap())
}
impl ResolveWitness for Chain {
    fn resolve_pub_witness(&self, id: XWitnessId) -> Result<XWitnessTx, WitnessResolverError> {
        let txid = id.as_reduced_unsafe();
        self.txs
            .borrow()
            .get(txid)
            .cloned()
            .map(XChain::Bitcoin)
            .ok_or(WitnessResolverError::Unknown(id))
    }
    fn resolve_pub_witness_ord(&self, id: XWitnessId) -> Result<WitnessOrd, WitnessResolverError> {
        let txid = id.as_reduced_unsafe();
        self.asked.borrow_mut().push(*txid);
        self.ords
            .borrow()
            .get(txid)
            .copied()
            .ok_or(WitnessResolverError::Unknown(id))
    }
}

pub fn txid(n: u8) -> Txid { Txid::from_byte_array([n; 32]) }
pub fn outpoint(n: u8, v: u32) -> Outpoint { Outpoint::new(txid(n), Vout::from_u32(v)) }
pub fn oseal(o: Outpoint) -> XOutputSeal {
    XChain::Bitcoin(OutputSeal::with(CloseMethod::OpretFirst, o.txid, o.vout))
}
pub fn gseal(o: Outpoint, blinding: u64) -> XChain<GraphSeal> {
    XChain::Bitcoin(GraphSeal::with_blinding(CloseMethod::OpretFirst, o.txid, o.vout, blinding))
}
pub fn wseal(v: u32, blinding: u64) -> XChain<GraphSeal> {
    XChain::Bitcoin(GraphSeal::with_blinded_vout(CloseMethod::OpretFirst, Vout::from_u32(v), blinding))
}
pub fn xwid(t: &Tx) -> XWitnessId { XChain::Bitcoin(t.txid()) }

pub fn stock() -> Stock {
    let mut s = Stock::in_memory();
    s.import_kit(kit().validate().unwrap_or_else(|_| panic!("kit"))).unwrap();
    s
}

/// Issues a contract with fungible allocations to the given outpoints.
pub fn issue(stock: &mut Stock, chain: &Chain, alloc: &[(Outpoint, u64)]) -> ContractId {
    let c = contract(stock, alloc, &[]);
    let id = c.contract_id();
    stock.import_contract(c, chain).unwrap();
    id
}
pub fn contract(stock: &Stock, alloc: &[(Outpoint, u64)], rights: &[Outpoint]) -> ValidConsignment<false> {
    let mut b = stock
        .contract_builder(Identity::default(), schema().schema_id(), iface().iface_id())
        .unwrap()
        .add_asset_tag(fname!("inflation"), AssetTag::from([7u8; 32]))
        .unwrap();
    for (o, v) in alloc {
        let seal = GenesisSeal::with_blinding(CloseMethod::OpretFirst, o.txid, o.vout, 7);
        b = b.add_fungible_state(fname!("assetOwner"), XChain::Bitcoin(seal), *v).unwrap();
    }
    for o in rights {
        let seal = GenesisSeal::with_blinding(CloseMethod::OpretFirst, o.txid, o.vout, 8);
        b = b.add_rights(fname!("admin"), XChain::Bitcoin(seal)).unwrap();
    }
    b.issue_contract().unwrap()
}

/// Builds a transaction spending `ins` and committing with opret to the given bundles.
pub fn anchor(ins: &[Outpoint], bundles: &BTreeMap<ContractId, TransitionBundle>, nonce: u32) -> (Tx, AnchorSet) {
    let mut src = mpc::MultiSource::with_static_entropy(1);
    let mut msgs = BTreeMap::new();
    for (id, b) in bundles {
        msgs.insert(mpc::ProtocolId::from(*id), mpc::Message::from(b.bundle_id()));
    }
    src.messages = Confined::try_from(msgs).unwrap();
    let tree = mpc::MerkleTree::try_commit(&src).unwrap();
    let commitment = tree.commit_id();
    let mut script = vec![0x6a, 0x20];
    script.extend(commitment.to_byte_array());
    let tx = Tx {
        version: TxVer::V2,
        inputs: Confined::try_from(
            ins.iter()
                .map(|o| TxIn { prev_output: *o, sig_script: SigScript::default(), sequence: SeqNo::from_consensus_u32(nonce), witness: Witness::default() })
                .collect::<Vec<_>>(),
        )
        .unwrap(),
        outputs: Confined::try_from(vec![
            TxOut::new(ScriptPubkey::from_unsafe(script), Sats::from_sats(0u64)),
            TxOut::new(ScriptPubkey::from_unsafe(vec![0x51]), Sats::from_sats(1000u64)),
            TxOut::new(ScriptPubkey::from_unsafe(vec![0x51]), Sats::from_sats(1000u64)),
        ])
        .unwrap(),
        lock_time: LockTime::ZERO,
    };
    let anchor = Anchor::new(mpc::MerkleBlock::from(tree), OpretProof::default());
    (tx, AnchorSet::Opret(anchor))
}

/// Puts the transitions of one contract into a bundle for a transaction spending `ins`.
pub fn bundle(ins: &[Outpoint], infos: &[TransitionInfo]) -> TransitionBundle {
    let mut map = BTreeMap::new();
    let mut known = BTreeMap::new();
    for i in infos {
        for o in i.inputs.iter() {
            let pos = ins.iter().position(|x| x == o.as_reduced_unsafe()).unwrap();
            map.insert(Vin::from_u32(pos as u32), i.id);
        }
        known.insert(i.id, i.transition.clone());
    }
    TransitionBundle {
        close_method: CloseMethod::OpretFirst,
        input_map: InputMap::from(Confined::try_from(map).unwrap()),
        known_transitions: Confined::try_from(known).unwrap(),
    }
}

/// Anchors all transitions of a batch into one transaction.
pub fn fascia(ins: &[Outpoint], batch: Batch, nonce: u32) -> (Tx, Fascia) {
    let mut by = BTreeMap::<ContractId, Vec<TransitionInfo>>::new();
    for i in batch {
        by.entry(i.transition.contract_id).or_default().push(i);
    }
    let bundles: BTreeMap<_, _> = by.into_iter().map(|(c, v)| (c, bundle(ins, &v))).collect();
    let (tx, anchor) = anchor(ins, &bundles, nonce);
    let f = Fascia {
        witness: XChain::Bitcoin(PubWitness::Tx(tx.clone())),
        anchor,
        bundles: NonEmptyOrdMap::try_from(
            bundles.into_iter().map(|(c, b)| (c, BundleDichotomy::single(b))).collect::<BTreeMap<_, _>>(),
        )
        .unwrap(),
    };
    (tx, f)
}

pub fn invoice(contract: ContractId, amount: u64, to: XChain<SecretSeal>) -> RgbInvoice {
    let b = match to {
        XChain::Bitcoin(s) => XChainNet::bitcoin(invoice_net(), Beneficiary::BlindedSeal(s)),
        _ => unreachable!(),
    };
    RgbInvoiceBuilder::new(b)
        .set_contract(contract)
        .set_interface(tn!("DemoFace"))
        .set_amount_raw(amount)
        .finish()
}
pub fn invoice_net() -> ::invoice::Network { ::invoice::Network::Testnet3 }

pub fn pay(stock: &Stock, contract: ContractId, amount: u64, to: XChain<SecretSeal>, from: &[Outpoint]) -> Batch {
    stock
        .compose(&invoice(contract, amount, to), from.iter().map(|o| oseal(*o)), CloseMethod::OpretFirst, None::<Vout>, |_, _, _| Some(Vout::from_u32(1)))
        .unwrap()
}

/// Fungible allocations known for a contract, by outpoint.
pub fn balance(stock: &Stock, contract: ContractId) -> BTreeMap<Outpoint, u64> {
    let mut m = BTreeMap::new();
    let st = stock.contract_state(contract).unwrap();
    for a in st.fungible_all() {
        *m.entry(Outpoint::new(a.seal.as_reduced_unsafe().txid, a.seal.as_reduced_unsafe().vout)).or_default() += a.state.value.as_u64();
    }
    m
}
