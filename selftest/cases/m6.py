from mut import *
F='src/persistence/stock.rs'; C='src/containers/consignment.rs'
mut('b-index-orig',F,'''        consignment = self.stash.resolve_secrets(consignment)?;
''','''        let _ = self.stash.resolve_secrets(consignment.clone())?;
        consignment = consignment.clone();
''','T01')
mut('b-reveal-break',C,'''                if let Some(seal) = f(*secret)? {
                    witness_bundle.reveal_seal(*bundle_id, seal);
                }''','''                if let Some(seal) = f(*secret)? {
                    witness_bundle.reveal_seal(*bundle_id, seal);
                    break;
                }''','T01')
mut('b-subset-swap',F,'if !ids1.is_subset(&ids2)','if !ids2.is_subset(&ids1)','T01')
mut('b-second','src/containers/partials.rs','''        if let Some(s) = self.second {
            vec.push(s)
        }
        vec.into_iter()
    }
}

impl<T> Dichotomy<T> {''','''        if let Some(s) = self.second {
            if vec.is_empty() { vec.push(s) }
        }
        vec.into_iter()
    }
}

impl<T> Dichotomy<T> {''','T01')
mut('b-second2','src/containers/partials.rs','''            .flat_map(|(id, d)| d.into_iter().map(move |b| (id, b)))''','''            .map(|(id, d)| (id, d.first))''','T01')
mut('b-state-skip',F,'''                state.update_from_bundle(contract_id, &bundle, witness_id, &resolver)?;
''','''                if index.bundle_info(bundle.bundle_id()).is_err() {
                    state.update_from_bundle(contract_id, &bundle, witness_id, &resolver)?;
                }
''','T01')
mut('r-loop',F,'''                let ids1 = bundle
                    .known_transitions
                    .keys()
                    .copied()
                    .collect::<BTreeSet<_>>();
                let ids2 = bundle.input_map.values().copied().collect::<BTreeSet<_>>();
                if !ids1.is_subset(&ids2) {
                    return Err(FasciaError::InvalidBundle(contract_id, bundle.bundle_id()).into());
                }
''','''                let committed = bundle.input_map.values().copied().collect::<BTreeSet<_>>();
                for id in bundle.known_transitions.keys() {
                    if !committed.contains(id) {
                        return Err(
                            FasciaError::InvalidBundle(contract_id, bundle.bundle_id()).into()
                        );
                    }
                }
''','T01',0)
mut('r-any',F,'''                let ids1 = bundle
                    .known_transitions
                    .keys()
                    .copied()
                    .collect::<BTreeSet<_>>();
                let ids2 = bundle.input_map.values().copied().collect::<BTreeSet<_>>();
                if !ids1.is_subset(&ids2) {''','''                let ids2 = bundle.input_map.values().copied().collect::<BTreeSet<_>>();
                if bundle.known_transitions.keys().any(|id| !ids2.contains(id)) {''','T01',0)
mut('r-order',F,'''            state.update_from_consignment(&consignment, &resolver)?;
            index.index_consignment(&consignment)?;
            stash.consume_consignment(consignment)?;
            Ok(())''','''            index.index_consignment(&consignment)?;
            state.update_from_consignment(&consignment, &resolver)?;
            stash.consume_consignment(consignment).map_err(StockError::from)''','T01 P01',0)
mut('r-reveal',C,'''        let mut bundles = LargeOrdSet::with_capacity(self.bundles.len());
        for mut witness_bundle in self.bundles {
            for (bundle_id, secret) in &self.terminals {
                if let Some(seal) = f(*secret)? {
                    witness_bundle.reveal_seal(*bundle_id, seal);
                }
            }
            bundles.push(witness_bundle).ok();
        }
        self.bundles = bundles;
        Ok(self)''','''        let mut known = Vec::new();
        for (bundle_id, secret) in &self.terminals {
            if let Some(seal) = f(*secret)? {
                known.push((*bundle_id, seal));
            }
        }
        let mut bundles = LargeOrdSet::with_capacity(self.bundles.len());
        for mut witness_bundle in self.bundles {
            for (bundle_id, seal) in &known {
                witness_bundle.reveal_seal(*bundle_id, *seal);
            }
            bundles.push(witness_bundle).ok();
        }
        self.bundles = bundles;
        Ok(self)''','T01',0)
