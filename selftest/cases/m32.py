from mut import *
A = 'src/containers/anchors.rs'
K = 'src/persistence/stock.rs'

mut('a1-q-merge', A, '''            (Self::Txid(txid1), Self::Txid(txid2)) if txid1 == txid2 => Ok(Self::Txid(txid1)),
            (Self::Txid(txid), Self::Tx(tx)) | (Self::Tx(tx), Self::Txid(txid))
                if txid == tx.txid() =>
            {
                Ok(Self::Tx(tx))
            }
            // TODO: tx1 and tx2 may differ on their witness data; take the one having most of the
            // witness
            (Self::Tx(tx1), Self::Tx(tx2)) if tx1.txid() == tx2.txid() => Ok(Self::Tx(tx1)),
            (a, b) => Err(MergeRevealError::TxidMismatch(a.txid(), b.txid())),
''', '''            (a, b) if a.txid() != b.txid() => {
                Err(MergeRevealError::TxidMismatch(a.txid(), b.txid()))
            }
            (Self::Tx(tx), _) | (_, Self::Tx(tx)) => Ok(Self::Tx(tx)),
            (Self::Txid(txid), _) => Ok(Self::Txid(txid)),
''', 'A01 M01 K03', 0)
mut('a1-q-loops', A, '''        bundle
            .known_transitions
            .values_mut()
            .flat_map(|t| t.assignments.values_mut())
            .for_each(|a| a.reveal_seal(seal));

        true
''', '''        for transition in bundle.known_transitions.values_mut() {
            for assignments in transition.assignments.values_mut() {
                assignments.reveal_seal(seal);
            }
        }
        true
''', 'A01 K03', 0)
mut('a1-q-contains', A, '''        if self.bundle.input_map.values().all(|id| *id != opid) {
            return Err(UnrelatedTransition(opid, transition));
        }
        if self.bundle.known_transitions.contains_key(&opid) {
            return Ok(false);
        }
        self.bundle
            .known_transitions
            .insert(opid, transition)
            .expect("same size as input map");
        Ok(true)
''', '''        let related = self.bundle.input_map.values().any(|id| *id == opid);
        if !related {
            return Err(UnrelatedTransition(opid, transition));
        }
        let unknown = !self.bundle.known_transitions.contains_key(&opid);
        if unknown {
            self.bundle
                .known_transitions
                .insert(opid, transition)
                .expect("same size as input map");
        }
        Ok(unknown)
''', 'A01 C01', 0)
mut('a1-q-anchor', A, '''                let tapret_anchor =
                    EAnchor::new(tapret.mpc_proof.clone(), tapret.dbc_proof.clone().into());
                let opret_anchor = EAnchor::new(opret.mpc_proof.clone(), opret.dbc_proof.into());
                Dichotomy::double((tapret_anchor, &tapret.bundle), (opret_anchor, &opret.bundle))
''', '''                let first = (
                    EAnchor::new(tapret.mpc_proof.clone(), DbcProof::Tapret(tapret.dbc_proof.clone())),
                    &tapret.bundle,
                );
                let second =
                    (EAnchor::new(opret.mpc_proof.clone(), DbcProof::Opret(opret.dbc_proof)), &opret.bundle);
                Dichotomy::double(first, second)
''', 'A01', 0)
mut('a1-q-double', A, '''        match (self.anchored_bundles, other.dbc_proof) {
            (AnchoredBundles::Double { .. }, _) => {
                return Err(AnchoredBundleMismatch::AlreadyDouble(
                    self.pub_witness.to_witness_id(),
                ));
            }
            (AnchoredBundles::Opret(opret), DbcProof::Tapret(tapret)) => {
                self.anchored_bundles = AnchoredBundles::Double {
                    tapret: ClientBundle::new(other.mpc_proof, tapret, other.bundle),
                    opret,
                }
            }
            (AnchoredBundles::Tapret(tapret), DbcProof::Opret(opret)) => {
                self.anchored_bundles = AnchoredBundles::Double {
                    opret: ClientBundle::new(other.mpc_proof, opret, other.bundle),
                    tapret,
                }
            }
            _ => {
                return Err(AnchoredBundleMismatch::SameBundleType(
                    self.pub_witness.to_witness_id(),
                ));
            }
        }
        Ok(self)
''', '''        let witness_id = self.pub_witness.to_witness_id();
        self.anchored_bundles = match (self.anchored_bundles, AnchoredBundles::from(other)) {
            (AnchoredBundles::Double { .. }, _) => {
                return Err(AnchoredBundleMismatch::AlreadyDouble(witness_id));
            }
            (AnchoredBundles::Opret(opret), AnchoredBundles::Tapret(tapret))
            | (AnchoredBundles::Tapret(tapret), AnchoredBundles::Opret(opret)) => {
                AnchoredBundles::Double { tapret, opret }
            }
            _ => return Err(AnchoredBundleMismatch::SameBundleType(witness_id)),
        };
        Ok(self)
''', 'A01 C01', 0)
mut('c1-q-anchor', K, '''            if let Entry::Vacant(entry) = anchored_bundles.entry(bundle_id) {
                entry.insert(self.client_bundle(bundle_id)?);
            }
''', '''            if !anchored_bundles.contains_key(&bundle_id) {
                let client_bundle = self.client_bundle(bundle_id)?;
                anchored_bundles.insert(bundle_id, client_bundle);
            }
''', 'C01 C02 C03', 0)
mut('c1-q-seals', K, '''                for index in 0..typed_assignments.len_u16() {
                    let seal = typed_assignments.to_confidential_seals()[index as usize];
                    if secret_seal == Some(seal) {
                        terminals.insert(bundle_id, seal);
                    }
                }
''', '''                for seal in typed_assignments.to_confidential_seals() {
                    if Some(seal) == secret_seal {
                        terminals.insert(bundle_id, seal);
                    }
                }
''', 'C01 C02 C03', 0)
mut('c1-q-ids', K, '''        let mut ids = vec![];
        for transition in transitions.values() {
            ids.extend(transition.inputs().iter().map(|input| input.prev_out.op));
        }
        while let Some(id) = ids.pop() {
            if id == contract_id {
                continue; // we skip genesis since it will be present anywhere
            }
            let transition = self.transition(id)?;
            ids.extend(transition.inputs().iter().map(|input| input.prev_out.op));
            transitions.insert(id, transition.clone());
''', '''        let mut ids = transitions
            .values()
            .flat_map(|transition| transition.inputs().iter().map(|input| input.prev_out.op).collect::<Vec<_>>())
            .collect::<Vec<_>>();
        while let Some(id) = ids.pop() {
            if id == contract_id {
                continue; // we skip genesis since it will be present anywhere
            }
            let transition = self.transition(id)?;
            for input in transition.inputs().iter() {
                ids.push(input.prev_out.op);
            }
            transitions.insert(id, transition.clone());
''', 'C01 C02 C03', 0)
mut('c1-q-wb', K, '''            let pub_witness = self.stash.witness(witness_id)?.public.clone();
            let wb = match bundles.remove(&witness_id) {
                Some(bundle) => bundle.into_double(anchored_bundle)?,
                None => WitnessBundle::with(pub_witness, anchored_bundle),
            };
            let res = bundles.insert(witness_id, wb);
            debug_assert!(res.is_none());
''', '''            let witness = self.stash.witness(witness_id)?;
            let wb = if let Some(bundle) = bundles.remove(&witness_id) {
                bundle.into_double(anchored_bundle)?
            } else {
                WitnessBundle::with(witness.public.clone(), anchored_bundle)
            };
            bundles.insert(witness_id, wb);
''', 'C01 C02 C03', 0)
mut('c2-q-sigs', K, '''        self.stash
            .sigs_for(&ContentId::Genesis(contract_id))?
            .map(|genesis_sig| {
                signatures.insert(ContentId::Genesis(contract_id), genesis_sig.clone())
            });
''', '''        let genesis_content = ContentId::Genesis(contract_id);
        if let Some(genesis_sig) = self.stash.sigs_for(&genesis_content)? {
            signatures.insert(genesis_content, genesis_sig.clone());
        }
''', 'C01 C02 C03', 0)
mut('c2-q-ifaces', K, '''        for (iface_id, iimpl) in schema_ifaces.iimpls {
            let iface = self.stash.iface(iface_id)?;
            // Get iface''', '''        for (iface_id, iimpl) in schema_ifaces.iimpls.into_iter() {
            let iface = self.stash.iface(iface_id)?.clone();
            let iface = &iface;
            // Get iface''', 'C01 C02 C03', 0)
mut('c1-b-first', K, '''            for typed_assignments in transition.assignments.values() {
                for index in 0..typed_assignments.len_u16() {
                    let seal = typed_assignments.to_confidential_seals()[index as usize];
''', '''            for typed_assignments in transition.assignments.values() {
                for index in 1..typed_assignments.len_u16() {
                    let seal = typed_assignments.to_confidential_seals()[index as usize];
''', 'C04', 1)
