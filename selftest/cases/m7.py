from mut import *
C='src/containers/consignment.rs'; I='src/containers/indexed.rs'
mut('b-vald-first',[(C,'        // RGB Core validates','        let validity = status.validity();\n        // RGB Core validates'),(C,'''        let validity = status.validity();

        if self''','''        if self''')],0,0,'V01')
mut('b-warn',C,'''                    status.add_failure(Failure::BundleExtraTransition(bundle_id, *opid));''','''                    status.add_warning(Warning::Custom(format!("{bundle_id} {opid}")));''','V01')
mut('b-noid',C,'transition.id() != *opid || !bundle','!bundle','V01')
mut('b-and',C,'transition.id() != *opid || !bundle','transition.id() != *opid && !bundle','V01')
mut('b-validity',C,'if validity != Validity::Valid {','if validity == Validity::Invalid {','V01')
mut('b-testnet',C,'            testnet,\n            (&self.schema','            self.genesis.testnet,\n            (&self.schema','V01')
mut('b-mutacc',C,'''    pub fn into_consignment(self)''','''    pub fn as_mut(&mut self) -> &mut Consignment<TRANSFER> { &mut self.consignment }

    pub fn into_consignment(self)''','V01')
mut('b-from',C,'''impl<const TRANSFER: bool> Deref for ValidConsignment''','''impl<const TRANSFER: bool> From<Consignment<TRANSFER>> for ValidConsignment<TRANSFER> {
    fn from(consignment: Consignment<TRANSFER>) -> Self {
        ValidConsignment { validation_status: validation::Status::new(), consignment }
    }
}

impl<const TRANSFER: bool> Deref for ValidConsignment''','V01')
mut('b-pubfield',C,'    consignment: Consignment<TRANSFER>,\n}','    pub consignment: Consignment<TRANSFER>,\n}','V01')
mut('b-idx-first',I,'bundle_idx.insert(bundle_id, bundle);','bundle_idx.entry(bundle_id).or_insert(bundle);','V02',0)
mut('b-idx-op',I,'                    op_bundle_idx.insert(*opid, bundle_id);','                    if op_witness_idx.len() < 2 { op_bundle_idx.insert(*opid, bundle_id); }','V02')
mut('b-break',I,'''                anchor_idx.insert(bundle_id, (witness_id, anchor));
''','''                anchor_idx.insert(bundle_id, (witness_id, anchor));
                if bundle.known_transitions.len() > 100 { continue; }
''','V02')
mut('b-take',I,'for (anchor, bundle) in witness_bundle.anchored_bundles() {','for (anchor, bundle) in witness_bundle.anchored_bundles().take(1) {','V02')
mut('b-op-order',I,'''        self.transition(opid)
            .map(OpRef::Transition)
            .or_else(|| self.extension(opid).map(OpRef::Extension))''','''        self.transition(opid)
            .map(OpRef::Transition)''','V02')
mut('b-genesis',I,'if opid == self.genesis.id() {','if opid == self.genesis.id() || self.op_bundle_idx.is_empty() {','V02')
# refactorings
mut('r-helper',C,'''        if validity != Validity::Valid {
            Err((status, self))
        } else {
            Ok(ValidConsignment {
                validation_status: status,
                consignment: self,
            })
        }
    }
''','''        match validity {
            Validity::Valid => Ok(self.into_valid(status)),
            _ => Err((status, self)),
        }
    }

    fn into_valid(self, status: validation::Status) -> ValidConsignment<TRANSFER> {
        ValidConsignment {
            validation_status: status,
            consignment: self,
        }
    }
''','V01',0)
mut('r-order',[(C,'''        let validity = status.validity();

        if self''','''        if self'''),(C,'        if validity != Validity::Valid','        let validity = status.validity();\n        if validity != Validity::Valid')],0,0,'V01',0)
mut('r-loops',C,'''        for (_, bundle) in self
            .bundles
            .iter()
            .flat_map(WitnessBundle::anchored_bundles)
        {''','''        for (_, bundle) in self.bundles.iter().flat_map(|wb| wb.anchored_bundles()) {''','V01',0)
mut('r-idx',I,'''        for witness_bundle in &consignment.bundles {
            witness_idx
                .insert(witness_bundle.pub_witness.to_witness_id(), &witness_bundle.pub_witness);
            let witness_id = witness_bundle.pub_witness.to_witness_id();
''','''        for extension in &consignment.extensions {
            extension_idx.insert(extension.id(), extension);
        }
        for witness_bundle in consignment.bundles.iter() {
            let witness_id = witness_bundle.witness_id();
            witness_idx.insert(witness_id, &witness_bundle.pub_witness);
''','V02',0)
mut('r-idx2',I,'''        for extension in &consignment.extensions {
            extension_idx.insert(extension.id(), extension);
        }
''','''        extension_idx.extend(consignment.extensions.iter().map(|e| (e.id(), e)));
''','V02',0)
mut('r-op',I,'''        if opid == self.genesis.id() {
            return Some(OpRef::Genesis(&self.genesis));
        }
        self.transition(opid)
            .map(OpRef::Transition)
            .or_else(|| self.extension(opid).map(OpRef::Extension))''','''        if let Some(t) = self.transition(opid) {
            return Some(OpRef::Transition(t));
        }
        match self.extension(opid) {
            Some(e) => Some(OpRef::Extension(e)),
            None if opid == self.genesis.id() => Some(OpRef::Genesis(&self.genesis)),
            None => None,
        }''','V02',0)
mut('r-ids',I,'''        self.bundle_idx
            .keys()
            .copied()
            .collect::<BTreeSet<_>>()
            .into_iter()''','''        let ids: Vec<_> = self.bundle_idx.keys().copied().collect();
        ids.into_iter()''','V02',0)
