from mut import *
M = 'src/persistence/memory.rs'
S = 'src/persistence/state.rs'
K = 'src/persistence/stock.rs'
A = 'src/containers/anchors.rs'

mut('w1-q-iflet', M, '''            if matches!(ord, WitnessOrd::Mined(pos) if pos.height() < after_height) {
                continue;
            }
            match resolver.resolve_pub_witness_ord(*id) {
                Ok(new) => {
                    *ord = new;
                    succeeded += 1;
                }
                Err(err) => {
                    failed.insert(*id, err.to_string());
                }
            }
''', '''            if let WitnessOrd::Mined(pos) = ord {
                if pos.height() < after_height {
                    continue;
                }
            }
            let res = resolver.resolve_pub_witness_ord(*id);
            if let Ok(new) = res {
                *ord = new;
                succeeded += 1;
            } else if let Err(err) = res {
                failed.insert(*id, err.to_string());
            }
''', 'W01', 0)
mut('w1-q-filter', M, '''        for (id, ord) in &mut witnesses {
            if matches!(ord, WitnessOrd::Mined(pos) if pos.height() < after_height) {
                continue;
            }
            match''', '''        for (id, ord) in witnesses.iter_mut() {
            let settled = match ord {
                WitnessOrd::Mined(pos) => pos.height() < after_height,
                _ => false,
            };
            if settled {
                continue;
            }
            match''', 'W01', 0)
mut('w1-q-take', M, '''        let mut witnesses = LargeOrdMap::new();
        mem::swap(&mut self.witnesses, &mut witnesses);
        let mut witnesses = witnesses.release();
''', '''        let mut witnesses = mem::take(&mut self.witnesses).release();
''', 'W01 P02', 0)
mut('w1-q-assign', M, '''        let mut witnesses =
            LargeOrdMap::try_from(witnesses).inspect_err(|_| self.rollback_transaction())?;
        mem::swap(&mut self.witnesses, &mut witnesses);
''', '''        self.witnesses =
            LargeOrdMap::try_from(witnesses).inspect_err(|_| self.rollback_transaction())?;
''', 'W01 P02', 0)
mut('w1-q-clone', M, '''        let mut witnesses = LargeOrdMap::new();
        mem::swap(&mut self.witnesses, &mut witnesses);
        let mut witnesses = witnesses.release();
''', '''        let mut witnesses = self.witnesses.clone().release();
''', 'W01 P02', 0)

mut('s3-q-hoist', S, '''            for transition in witness_bundle.known_transitions() {
                let witness_id = witness_bundle.pub_witness.to_witness_id();
''', '''            let witness_id = witness_bundle.pub_witness.to_witness_id();
            for transition in witness_bundle.known_transitions() {
''', 'S03', 0)
mut('s3-q-valid', S, '''        for witness_id in witness_ids {
            let witness_id = *witness_id.borrow();
            if self
                .provider
                .is_valid_witness(witness_id)
                .map_err(StateError::ReadProvider)?
            {
                return Ok(witness_id);
            }
        }
        Err(StateError::AbsentValidWitness)
''', '''        let mut selected = None;
        for witness_id in witness_ids {
            let id = *witness_id.borrow();
            let valid = self
                .provider
                .is_valid_witness(id)
                .map_err(StateError::ReadProvider)?;
            if valid {
                selected = Some(id);
                break;
            }
        }
        selected.ok_or(StateError::AbsentValidWitness)
''', 'S03 C01 C02', 0)
mut('s3-q-ord', S, '''        for transition in bundle.known_transitions.values() {
            let ord = resolver
                .resolve_pub_witness_ord(witness_id)
                .map_err(|e| StateError::Resolver(witness_id, e))?;
            updater
                .add_transition(transition, witness_id, ord)
                .map_err(StateError::WriteProvider)?;
        }
        Ok(())
''', '''        bundle.known_transitions.values().try_for_each(|transition| {
            let ord = match resolver.resolve_pub_witness_ord(witness_id) {
                Ok(ord) => ord,
                Err(e) => return Err(StateError::Resolver(witness_id, e)),
            };
            updater
                .add_transition(transition, witness_id, ord)
                .map_err(StateError::WriteProvider)
        })
''', 'S03 K04', 0)
mut('s3-q-ext', S, '''        for extension in consignment.extensions() {
            if let Some((witness_id, witness_ord)) = ordered_extensions.get(&extension.id()) {
                state
                    .add_extension(extension, *witness_id, *witness_ord)
                    .map_err(StateError::WriteProvider)?;
            }
''', '''        for extension in consignment.extensions() {
            let opid = extension.id();
            match ordered_extensions.get(&opid).copied() {
                Some((witness_id, witness_ord)) => {
                    state
                        .add_extension(extension, witness_id, witness_ord)
                        .map_err(StateError::WriteProvider)?;
                }
                None => continue,
            }
''', 'S03', 0)

mut('d1-q-let', K, '''            let outpoint = item.seal.into();
            if outputs.contains::<XOutpoint>(&outpoint) {
                res.entry(item.seal)
                    .or_default()
                    .insert(item.opout, PersistedState::Void);
            }
''', '''            if !outputs.contains::<XOutpoint>(&item.seal.into()) {
                continue;
            }
            let entry = res.entry(item.seal).or_default();
            entry.insert(item.opout, PersistedState::Void);
''', 'D01', 0)
mut('d1-q-filter', K, '''        for item in state.data_all() {
            let outpoint = item.seal.into();
            if outputs.contains::<XOutpoint>(&outpoint) {
                res.entry(item.seal).or_default().insert(
                    item.opout,
                    PersistedState::Data(item.state.value.clone(), item.state.salt),
                );
            }
        }
''', '''        state
            .data_all()
            .filter(|item| outputs.contains::<XOutpoint>(&item.seal.into()))
            .for_each(|item| {
                let data = PersistedState::Data(item.state.value.clone(), item.state.salt);
                res.entry(item.seal).or_default().insert(item.opout, data);
            });
''', 'D01', 0)
mut('d1-q-set', K, '''        let outputs: BTreeSet<XOutpoint> = outpoints.into_iter().map(|o| o.into()).collect();

        let state = self.contract_state(contract_id)?;
''', '''        let state = self.contract_state(contract_id)?;

        let mut outputs = BTreeSet::<XOutpoint>::new();
        for outpoint in outpoints {
            outputs.insert(outpoint.into());
        }
''', 'D01', 0)

mut('t1-q-order', K, '''            index.index_consignment(&consignment)?;
            stash.consume_consignment(consignment)?;
            Ok(())
''', '''            index.index_consignment(&consignment)?;
            Ok(stash.consume_consignment(consignment)?)
''', 'T01 P02', 0)
mut('t1-q-subset', K, '''                let ids1 = bundle
                    .known_transitions
                    .keys()
                    .copied()
                    .collect::<BTreeSet<_>>();
                let ids2 = bundle.input_map.values().copied().collect::<BTreeSet<_>>();
                if !ids1.is_subset(&ids2) {
                    return Err''', '''                let ids = bundle.input_map.values().copied().collect::<BTreeSet<_>>();
                if bundle.known_transitions.keys().any(|id| !ids.contains(id)) {
                    return Err''', 'T01', 0)
mut('t1-q-witness', K, '''            let witness_id = fascia.witness_id();
            stash
                .consume_witness(SealWitness::new(fascia.witness.clone(), fascia.anchor.clone()))?;
''', '''            let witness = SealWitness::new(fascia.witness.clone(), fascia.anchor.clone());
            let witness_id = fascia.witness_id();
            stash.consume_witness(witness)?;
''', 'T01', 0)
mut('p1-q-steps', K, '''        self.index
            .commit_transaction()
            .map_err(StockError::from)
            .and_then(|_| self.state.commit_transaction().map_err(StockError::from))
            .and_then(|_| self.stash.commit_transaction().map_err(StockError::from))
            .inspect_err(|_| {
                self.state.rollback_transaction();
                self.stash.rollback_transaction();
                self.index.rollback_transaction();
            })
''', '''        let mut res = self.index.commit_transaction().map_err(StockError::from);
        if res.is_ok() {
            res = self.state.commit_transaction().map_err(StockError::from);
        }
        if res.is_ok() {
            res = self.stash.commit_transaction().map_err(StockError::from);
        }
        if res.is_err() {
            self.state.rollback_transaction();
            self.stash.rollback_transaction();
            self.index.rollback_transaction();
        }
        res
''', 'P01 P02 K04', 0)
mut('p1-q-begin', K, '''        self.stash
            .begin_transaction()
            .inspect_err(|_| self.state.rollback_transaction())?;
''', '''        if let Err(err) = self.stash.begin_transaction() {
            self.state.rollback_transaction();
            return Err(err.into());
        }
''', 'P01 P02', 0)
mut('m1-q-map', A, '''            (XChain::Liquid(one), XChain::Liquid(two)) => one.merge_reveal(two).map(XChain::Liquid),
''', '''            (XChain::Liquid(one), XChain::Liquid(two)) => {
                let merged = one.merge_reveal(two)?;
                Ok(XChain::Liquid(merged))
            }
''', 'M01', 0)
