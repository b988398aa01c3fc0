from mut import *
N = 'src/containers/consignment.rs'
K = 'src/persistence/stock.rs'
F = 'src/interface/iface.rs'

mut('v1-q-nested', N, '''        for (_, bundle) in self
            .bundles
            .iter()
            .flat_map(WitnessBundle::anchored_bundles)
        {
            let bundle_id = bundle.bundle_id();
''', '''        for (_, bundle) in self.bundles.iter().flat_map(|wb| wb.anchored_bundles()) {
            let bundle_id = bundle.bundle_id();
''', 'V01 V02', 0)
mut('v1-q-ok', N, '''        if validity != Validity::Valid {
            Err((status, self))
        } else {
            Ok(ValidConsignment {
                validation_status: status,
                consignment: self,
            })
        }
''', '''        match validity {
            Validity::Valid => Ok(ValidConsignment {
                validation_status: status,
                consignment: self,
            }),
            _ => Err((status, self)),
        }
''', 'V01', 0)
mut('v1-q-early', N, '''        if validity != Validity::Valid {
            Err((status, self))
        } else {
            Ok(ValidConsignment {
                validation_status: status,
                consignment: self,
            })
        }
''', '''        if validity == Validity::Valid {
            return Ok(ValidConsignment {
                validation_status: status,
                consignment: self,
            });
        }
        Err((status, self))
''', 'V01', 0)
mut('v1-q-two', N, '''            for (opid, transition) in &bundle.known_transitions {
                if transition.id() != *opid || !bundle.input_map.values().any(|id| id == opid) {
                    status.add_failure(Failure::BundleExtraTransition(bundle_id, *opid));
                }
            }
''', '''            for (opid, transition) in &bundle.known_transitions {
                let committed = bundle.input_map.values().any(|id| id == opid);
                let genuine = transition.id() == *opid;
                if genuine && committed {
                    continue;
                }
                status.add_failure(Failure::BundleExtraTransition(bundle_id, *opid));
            }
''', 'V01 V02', 0)
mut('v1-q-contains', N, '''            if !bundle_ids.insert(bundle_id) {
                status''', '''            let fresh = bundle_ids.insert(bundle_id);
            if !fresh {
                status''', 'V01 V02', 0)
mut('v1-q-terms', N, '''            if !index.bundle_ids().any(|id| id == *bundle_id) {
''', '''            if index.bundle_ids().all(|id| id != *bundle_id) {
''', 'V01 V02', 0)
mut('e1-q-order', N, '''        e.commit_to_set(&TinyOrdSet::from_iter_checked(
            self.ifaces.values().map(|iimpl| iimpl.impl_id()),
        ));
''', '''        let impl_ids = TinyOrdSet::from_iter_checked(self.ifaces.values().map(IfaceImpl::impl_id));
        e.commit_to_set(&impl_ids);
''', 'E01', 0)
mut('e1-q-closure', N, '''            self.bundles.iter().map(WitnessBundle::commit_id),
''', '''            self.bundles.iter().map(|wb| wb.commit_id()),
''', 'E01', 0)
mut('d3-q-names', K, '''        let names = self
            .stash
            .ifaces()?
            .map(|iface| (iface.iface_id(), iface.name.clone()))
            .collect::<HashMap<_, _>>();
        Ok(self''', '''        let mut names = HashMap::new();
        for iface in self.stash.ifaces()? {
            names.insert(iface.iface_id(), iface.name.clone());
        }
        Ok(self''', 'D03', 0)
mut('d3-q-suppl', K, '''            let suppl = self
                .stash
                .supplement(ContentRef::Iface(iface.iface_id()))
                .ok()
                .flatten();
            IfaceInfo::new''', '''            let content_ref = ContentRef::Iface(iface.iface_id());
            let suppl = match self.stash.supplement(content_ref) {
                Ok(suppl) => suppl,
                Err(_) => None,
            };
            IfaceInfo::new''', 'D03', 0)
mut('d3-q-with', K, '''        Ok(self.stash.geneses()?.map(ContractInfo::with))
''', '''        let geneses = self.stash.geneses()?;
        Ok(geneses.map(|genesis| ContractInfo::with(genesis)))
''', 'D03', 0)
mut('d3-q-by', K, '''            self.contract_iface_class::<C>(genesis.contract_id())
                .as_ref()
                .map(<C::Wrapper<H::ContractRead<'_>> as IfaceWrapper<H::ContractRead<'_>>>::info)
                .ok()
''', '''            let contract = self.contract_iface_class::<C>(genesis.contract_id()).ok()?;
            Some(<C::Wrapper<H::ContractRead<'_>> as IfaceWrapper<H::ContractRead<'_>>>::info(
                &contract,
            ))
''', 'D03', 0)
mut('i-q-abs', F, '''        schema_ifaces.get(self.iface_id()).or_else(|| {
            self.inherits
                .iter()
                .rev()
                .find_map(move |parent| schema_ifaces.get(*parent))
        })
''', '''        if let Some(iimpl) = schema_ifaces.get(self.iface_id()) {
            return Some(iimpl);
        }
        for parent in self.inherits.iter().rev() {
            if let Some(iimpl) = schema_ifaces.get(*parent) {
                return Some(iimpl);
            }
        }
        None
''', 'I01 I02 D02', 0)
mut('d2-q-raw', K, '''        let state = self.state.contract_state(contract_id)?;
        let schema_id = state.schema_id();
        let schema_ifaces = self.stash.schema(schema_id)?;
        Ok((schema_ifaces, state, self.contract_info(contract_id)?))
''', '''        let info = self.contract_info(contract_id)?;
        let state = self.state.contract_state(contract_id)?;
        let schema_ifaces = self.stash.schema(state.schema_id())?;
        Ok((schema_ifaces, state, info))
''', 'D02 D01 D03', 0)
