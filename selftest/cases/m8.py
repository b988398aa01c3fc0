from mut import *
F='src/persistence/stock.rs'
# bugs C01
mut('nooutputs',F,"""        opouts.extend(
            self.index
                .opouts_by_outputs(contract_id, outputs.iter().copied())?,
        );
""","",'C01')
mut('nosecret',F,"opouts.extend(self.index.opouts_by_terminals(secret_seal.into_iter())?);","",'C01')
mut('break-genesis',F,"""            if id == contract_id {
                continue; // we skip""","""            if id == contract_id {
                break; // we skip""",'C01')
mut('noinputs2',F,"""            let transition = self.transition(id)?;
            ids.extend(transition.inputs().iter().map(|input| input.prev_out.op));
""","""            let transition = self.transition(id)?;
            ids.extend(transition.inputs().iter().take(1).map(|input| input.prev_out.op));
""",'C01')
mut('noreveal',F,""".or_insert(self.client_bundle(bundle_id)?.clone())
                .reveal_transition(transition.clone())?;""",""".or_insert(self.client_bundle(bundle_id)?.clone());""",'C01')
mut('lossy-double',F,"""            let wb = match bundles.remove(&witness_id) {
                Some(bundle) => bundle.into_double(anchored_bundle)?,
                None => WitnessBundle::with(pub_witness, anchored_bundle),
            };
            let res = bundles.insert(witness_id, wb);
            debug_assert!(res.is_none());""","""            let wb = WitnessBundle::with(pub_witness, anchored_bundle);
            bundles.insert(witness_id, wb);""",'C01')
mut('first-only',F,"for transition in transitions.values() {\n            ids.extend","for transition in transitions.values().take(1) {\n            ids.extend",'C01')
mut('visited-filter',F,"""            let transition = self.transition(id)?;
            ids.extend(transition""","""            if transitions.contains_key(&id) {
                continue;
            }
            let transition = self.transition(id)?;
            ids.extend(transition""",'C01',expect=0)
mut('tapret-opret',F,"=> (&tapret.mpc_proof, DbcProof::Tapret(tapret.dbc_proof.clone())),","=> (&tapret.mpc_proof, DbcProof::Tapret(tapret.dbc_proof.clone())),".replace('X','X'),'C01',expect=0)
mut('method-swap',F,"""AnchorSet::Tapret(tapret) | AnchorSet::Double { tapret, .. },""","""AnchorSet::Tapret(tapret),""",'C01')
mut('visited2',[(F,"let mut ids = vec![];","let mut ids = vec![];\n        let mut done = BTreeSet::new();"),(F,'''            let transition = self.transition(id)?;
            ids.extend(transition''','''            if !done.insert(id) {
                continue;
            }
            let transition = self.transition(id)?;
            ids.extend(transition''')],None,None,'C01',expect=0)
# bugs C04
mut('sig-wrong-key',F,"signatures.insert(ContentId::Iface(iface.iface_id()), iface_signature.clone())","signatures.insert(ContentId::Schema(genesis.schema_id), iface_signature.clone())",'C04')
mut('suppl-skip',F,"""            self.stash
                .supplement(ContentRef::IfaceImpl(iimpl.impl_id()))?
                .map(|iimpl_suppl| supplements.insert(iimpl_suppl.clone()));
""","",'C04')
mut('term-all',F,"if secret_seal == Some(seal) {","if secret_seal.is_some() {",'C04')
mut('term-first',F,"for index in 0..typed_assignments.len_u16() {","for index in 0..typed_assignments.len_u16().min(1) {",'C04')
mut('iface-skip',F,"            ifaces.insert(iface.clone(), iimpl);","            if ifaces.is_empty() { ifaces.insert(iface.clone(), iimpl); }",'C04')
mut('sig-genesis-schema',F,".sigs_for(&ContentId::Schema(genesis.schema_id))?",".sigs_for(&ContentId::Genesis(contract_id))?",'C04')
# refactorings
mut('r-helper',[(F,"""            let transition = self.transition(id)?;
            ids.extend(transition.inputs().iter().map(|input| input.prev_out.op));
            transitions.insert(id, transition.clone());
            let bundle_id = self.index.bundle_id_for_op(transition.id())?;
            anchored_bundles
                .entry(bundle_id)
                .or_insert(self.client_bundle(bundle_id)?.clone())
                .reveal_transition(transition.clone())?;
""","""            self.collect_one(id, &mut ids, &mut transitions, &mut anchored_bundles)?;
"""),(F,"""    fn transition(&self, opid: OpId)""","""    fn collect_one(&self, id: OpId, ids: &mut Vec<OpId>, transitions: &mut BTreeMap<OpId, Transition>, bundles: &mut BTreeMap<BundleId, ClientBundle>) -> Result<(), StockError<S, H, P, ConsignError>> {
        let transition = self.transition(id)?;
        for input in transition.inputs().iter() {
            ids.push(input.prev_out.op);
        }
        let bundle_id = self.index.bundle_id_for_op(id)?;
        transitions.insert(id, transition.clone());
        if !bundles.contains_key(&bundle_id) {
            bundles.insert(bundle_id, self.client_bundle(bundle_id)?);
        }
        bundles.get_mut(&bundle_id).expect("just inserted").reveal_transition(transition.clone())?;
        Ok(())
    }

    fn transition(&self, opid: OpId)""")],None,None,'C01 C04',expect=0)
mut('r-seals',F,"""                for index in 0..typed_assignments.len_u16() {
                    let seal = typed_assignments.to_confidential_seals()[index as usize];
                    if secret_seal == Some(seal) {
                        terminals.insert(bundle_id, seal);
                    }
                }""","""                for seal in typed_assignments.to_confidential_seals() {
                    match secret_seal {
                        Some(secret) if secret == seal => {
                            terminals.insert(bundle_id, seal);
                        }
                        _ => {}
                    }
                }""",'C01 C04',expect=0)
mut('r-sigs',F,"""        self.stash
            .sigs_for(&ContentId::Genesis(contract_id))?
            .map(|genesis_sig| {
                signatures.insert(ContentId::Genesis(contract_id), genesis_sig.clone())
            });""","""        let genesis_ref = ContentId::Genesis(contract_id);
        if let Some(sig) = self.stash.sigs_for(&genesis_ref)? {
            signatures.insert(genesis_ref, sig.clone());
        }""",'C01 C04',expect=0)
mut('r-while',F,"""        for transition in transitions.values() {
            ids.extend(transition.inputs().iter().map(|input| input.prev_out.op));
        }
        while let Some(id) = ids.pop() {
            if id == contract_id {
                continue; // we skip genesis since it will be present anywhere
            }
""","""        for transition in transitions.values() {
            for input in transition.inputs().iter() {
                ids.push(input.prev_out.op);
            }
        }
        loop {
            let Some(id) = ids.pop() else { break };
            if id == contract_id {
                continue; // we skip genesis since it will be present anywhere
            }
""",'C01 C04',expect=0)
mut('r-bundles',F,"""            let wb = match bundles.remove(&witness_id) {
                Some(bundle) => bundle.into_double(anchored_bundle)?,
                None => WitnessBundle::with(pub_witness, anchored_bundle),
            };
            let res = bundles.insert(witness_id, wb);
            debug_assert!(res.is_none());""","""            let wb = if let Some(bundle) = bundles.remove(&witness_id) {
                bundle.into_double(anchored_bundle)?
            } else {
                WitnessBundle::with(pub_witness, anchored_bundle)
            };
            bundles.insert(witness_id, wb);""",'C01 C04',expect=0)
mut('r-cb',F,"""        let (merkle_block, dbc) = match (bundle.close_method, &witness.anchors) {
            (
                CloseMethod::TapretFirst,
                AnchorSet::Tapret(tapret) | AnchorSet::Double { tapret, .. },
            ) => (&tapret.mpc_proof, DbcProof::Tapret(tapret.dbc_proof.clone())),
            (
                CloseMethod::OpretFirst,
                AnchorSet::Opret(opret) | AnchorSet::Double { opret, .. },
            ) => (&opret.mpc_proof, DbcProof::Opret(opret.dbc_proof)),
            _ => {""","""        let (merkle_block, dbc) = match (&witness.anchors, bundle.close_method) {
            (AnchorSet::Tapret(tapret), CloseMethod::TapretFirst) => (&tapret.mpc_proof, DbcProof::Tapret(tapret.dbc_proof.clone())),
            (AnchorSet::Double { tapret, .. }, CloseMethod::TapretFirst) => (&tapret.mpc_proof, DbcProof::Tapret(tapret.dbc_proof.clone())),
            (AnchorSet::Opret(opret), CloseMethod::OpretFirst) => (&opret.mpc_proof, DbcProof::Opret(opret.dbc_proof)),
            (AnchorSet::Double { opret, .. }, CloseMethod::OpretFirst) => (&opret.mpc_proof, DbcProof::Opret(opret.dbc_proof)),
            _ => {""",'C01 C04',expect=0)
mut('r-opouts',F,"""        for opout in opouts {
            if opout.op == contract_id {
                continue; // we skip genesis since it will be present anywhere
            }

            let""","""        for opout in opouts.into_iter().filter(|opout| opout.op != contract_id) {
            let""",'C01 C04',expect=0)
