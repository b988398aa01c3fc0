from mut import *
T = 'src/interface/contract.rs'
H = 'H01'

mut('h1-q-for', T, '''        let mut allocations_our_outpoint = state(&self.state)
            .filter(move |outp| filter_outpoints.should_include(outp.seal, outp.witness))
            .fold(HashMap::<_, HashSet<_>>::new(), |mut map, a| {
                map.entry(a.witness)
                    .or_default()
                    .insert(a.clone().transmute::<AllocatedState>());
                map
            });
''', '''        let mut allocations_our_outpoint = HashMap::<_, HashSet<_>>::new();
        for a in state(&self.state) {
            if !filter_outpoints.should_include(a.seal, a.witness) {
                continue;
            }
            let allocation = a.clone().transmute::<AllocatedState>();
            allocations_our_outpoint.entry(a.witness).or_default().insert(allocation);
        }
''', H, 0)
mut('h1-q-single', T, '''        let mut allocations_our_outpoint = state(&self.state)
            .filter(move |outp| filter_outpoints.should_include(outp.seal, outp.witness))
            .fold(HashMap::<_, HashSet<_>>::new(), |mut map, a| {
                map.entry(a.witness)
                    .or_default()
                    .insert(a.clone().transmute::<AllocatedState>());
                map
            });
        // get all allocations which has a witness transaction belonging to this wallet
        let mut allocations_our_witness = state(&self.state)
            .filter(move |outp| filter_witnesses.should_include(outp.seal, outp.witness))
            .fold(HashMap::<_, HashSet<_>>::new(), |mut map, a| {
                let witness = a.witness.expect(
                    "all empty witnesses must be already filtered out by wallet.filter_witness()",
                );
                map.entry(witness)
                    .or_default()
                    .insert(a.clone().transmute::<AllocatedState>());
                map
            });
''', '''        let mut allocations_our_outpoint = HashMap::<_, HashSet<_>>::new();
        // get all allocations which has a witness transaction belonging to this wallet
        let mut allocations_our_witness = HashMap::<_, HashSet<_>>::new();
        for a in state(&self.state) {
            if filter_outpoints.should_include(a.seal, a.witness) {
                allocations_our_outpoint
                    .entry(a.witness)
                    .or_default()
                    .insert(a.clone().transmute::<AllocatedState>());
            }
            if filter_witnesses.should_include(a.seal, a.witness) {
                let witness = a.witness.expect(
                    "all empty witnesses must be already filtered out by wallet.filter_witness()",
                );
                allocations_our_witness
                    .entry(witness)
                    .or_default()
                    .insert(a.clone().transmute::<AllocatedState>());
            }
        }
''', H, 0)
mut('h1-q-ids', T, '''        let mut witness_ids = allocations_our_witness
            .keys()
            .cloned()
            .collect::<BTreeSet<_>>();
        witness_ids.extend(allocations_our_outpoint.keys().filter_map(|x| *x));
''', '''        let witness_ids = allocations_our_outpoint
            .keys()
            .filter_map(|x| *x)
            .chain(allocations_our_witness.keys().copied())
            .collect::<BTreeSet<_>>();
''', H, 0)
mut('h1-q-all', T, '''        self.history_fungible(filter_outpoints.clone(), filter_witnesses.clone())
            .into_iter()
            .chain(self.history_rights(filter_outpoints.clone(), filter_witnesses.clone()))
            .chain(self.history_data(filter_outpoints.clone(), filter_witnesses.clone()))
            .chain(self.history_attach(filter_outpoints, filter_witnesses))
            .collect()
''', '''        let mut ops = self.history_fungible(filter_outpoints.clone(), filter_witnesses.clone());
        ops.extend(self.history_rights(filter_outpoints.clone(), filter_witnesses.clone()));
        ops.extend(self.history_data(filter_outpoints.clone(), filter_witnesses.clone()));
        ops.append(&mut self.history_attach(filter_outpoints, filter_witnesses));
        ops
''', H, 0)
mut('h1-q-info', T, '''        let ord = self.state.witness_ord(witness_id)?;
        Some(WitnessInfo {
            id: witness_id,
            ord,
        })
''', '''        self.state
            .witness_ord(witness_id)
            .map(|ord| WitnessInfo { id: witness_id, ord })
''', H, 0)
mut('h1-b-all', T, '''            .chain(self.history_data(filter_outpoints.clone(), filter_witnesses.clone()))
            .chain(self.history_attach(filter_outpoints, filter_witnesses))
''', '''            .chain(self.history_data(filter_outpoints.clone(), filter_witnesses.clone()))
            .chain(self.history_data(filter_outpoints, filter_witnesses))
''', H, 1)
mut('h1-b-ext', T, '''                    let ext_allocations = all_allocations
                        .difference(&our_allocations)
                        .cloned()
''', '''                    let ext_allocations = our_allocations
                        .difference(&all_allocations)
                        .cloned()
''', H, 1)
mut('q2-q-hash', 'src/containers/partials.rs', 'fn hash<H: Hasher>(&self, state: &mut H) { state.write(self.id.as_slice()) }', 'fn hash<H: Hasher>(&self, state: &mut H) { self.id.hash(state) }', 'Q02', 0)
mut('q2-q-eq', 'src/interface/iface.rs', 'fn eq(&self, other: &Self) -> bool { self.iface_id() == other.iface_id() }', 'fn eq(&self, other: &Self) -> bool { self.cmp(other) == Ordering::Equal }', 'Q02', 0)
mut('q2-q-is', 'src/containers/anchors.rs', 'fn eq(&self, other: &Self) -> bool { self.pub_witness == other.pub_witness }', 'fn eq(&self, other: &Self) -> bool { self.cmp(other).is_eq() }', 'Q02', 0)
mut('h1-b-for', T, '''        let mut witness_ids = allocations_our_witness
            .keys()
            .cloned()
            .collect::<BTreeSet<_>>();
        witness_ids.extend(allocations_our_outpoint.keys().filter_map(|x| *x));
''', '''        let witness_ids = allocations_our_outpoint
            .keys()
            .filter_map(|x| *x)
            .collect::<BTreeSet<_>>();
''', H, 1)
