from mut import *
M = 'src/persistence/memory.rs'
X = 'src/persistence/index.rs'
C = 'src/contract/assignments.rs'

# ---- S01: other forms of the same recording
mut('s1-q-loop', M, '''            for (no, seal, state) in assignments
                .iter()
                .enumerate()
                .filter_map(|(n, a)| a.to_revealed().map(|(seal, state)| (n, seal, state)))
            {
''', '''            for (no, assign) in assignments.iter().enumerate() {
                let Some((seal, state)) = assign.to_revealed() else {
                    continue;
                };
''', 'S01', 0)
mut('s1-q-iflet', M, '''                let assigned_state = match witness_id {
                    Some(witness_id) => {
                        OutputAssignment::with_witness(seal, witness_id, state, opid, ty, no as u16)
                    }
                    None => OutputAssignment::with_no_witness(seal, state, opid, ty, no as u16),
                };
''', '''                let no = no as u16;
                let assigned_state = if let Some(id) = witness_id {
                    OutputAssignment::with_witness(seal, id, state, opid, ty, no)
                } else {
                    OutputAssignment::with_no_witness(seal, state, opid, ty, no)
                };
''', 'S01', 0)
mut('s1-q-hoist', [(M, '''        let opid = op.id();

        for (ty, state) in op.globals() {
            let map = self
                .global
                .get_mut(ty)
                .expect("global map must be initialized from the schema");
            for (idx, s) in state.iter().enumerate() {
                let out = GlobalOut {
                    opid,
                    nonce: op.nonce(),
                    index: idx as u16,
                    op_witness: OpWitness::from(op),
                };
                map.known
                    .insert(out, s.clone())
                    .expect("contract global state exceeded 2^32 items, which is unrealistic");
            }
        }
''', '''        let opid = op.id();
        let nonce = op.nonce();
        let op_witness = OpWitness::from(op);

        for (ty, state) in op.globals() {
            let known = &mut self
                .global
                .get_mut(ty)
                .expect("global map must be initialized from the schema")
                .known;
            state.iter().enumerate().for_each(|(idx, s)| {
                let index = idx as u16;
                let out = GlobalOut {
                    opid,
                    nonce,
                    index,
                    op_witness,
                };
                known
                    .insert(out, s.clone())
                    .expect("contract global state exceeded 2^32 items, which is unrealistic");
            });
        }
''')], '', '', 'S01', 0)
mut('s1-q-two', M, '''        let witness_id = op.witness_id();
        match op.assignments() {
            AssignmentsRef::Genesis(assignments) => {
                self.add_assignments(witness_id, opid, assignments)
            }
            AssignmentsRef::Graph(assignments) => {
                self.add_assignments(witness_id, opid, assignments)
            }
        }
''', '''        match op.assignments() {
            AssignmentsRef::Genesis(list) => self.add_assignments(op.witness_id(), op.id(), list),
            AssignmentsRef::Graph(list) => self.add_assignments(op.witness_id(), op.id(), list),
        }
''', 'S01', 0)
mut('s1-b-pos', M, '''            for (no, seal, state) in assignments
                .iter()
                .enumerate()
                .filter_map(|(n, a)| a.to_revealed().map(|(seal, state)| (n, seal, state)))
''', '''            for (no, (seal, state)) in assignments
                .iter()
                .filter_map(|a| a.to_revealed())
                .enumerate()
''', 'S01', 1)

# ---- S02
mut('s2-q-one', M, '''            .filter(|assignment| {
                assignment.seal.to_outpoint() == outpoint && assignment.opout.ty == ty
            })
            .filter(|assignment| assignment.check_witness(&self.filter))
            .count() as u32
''', '''            .filter(|assignment| assignment.opout.ty == ty)
            .filter(|assignment| outpoint == assignment.seal.to_outpoint())
            .filter(|assignment| assignment.check_witness(&self.filter))
            .count() as u32
''', 'S02', 0)
mut('s2-q-count', M, '''        self.unfiltered
            .borrow()
            .rights
            .iter()
            .filter(|assignment| {
                assignment.seal.to_outpoint() == outpoint && assignment.opout.ty == ty
            })
            .filter(|assignment| assignment.check_witness(&self.filter))
            .count() as u32
''', '''        let mut count = 0u32;
        for assignment in &self.unfiltered.borrow().rights {
            if assignment.seal.to_outpoint() != outpoint || assignment.opout.ty != ty {
                continue;
            }
            if assignment.check_witness(&self.filter) {
                count += 1;
            }
        }
        count
''', 'S02', 0)
mut('s2-q-fmap', M, '''            .filter(|assignment| assignment.check_witness(&self.filter))
            .map(|assignment| assignment.state.value)
''', '''            .filter_map(|assignment| {
                assignment
                    .check_witness(&self.filter)
                    .then_some(assignment.state.value)
            })
''', 'S02', 0)
mut('s2-q-match', C, '''        match self.witness {
            None => true,
            Some(witness_id) => {
                !matches!(filter.get(&witness_id), None | Some(WitnessOrd::Archived))
            }
        }
''', '''        let Some(witness_id) = self.witness else {
            return true;
        };
        match filter.get(&witness_id) {
            None | Some(WitnessOrd::Archived) => false,
            Some(_) => true,
        }
''', 'S02', 0)
mut('s2-q-all', M, '''    fn rights_all(&self) -> impl Iterator<Item = &OutputAssignment<VoidState>> {
        self.unfiltered
            .borrow()
            .rights
            .iter()
            .filter(|assignment| assignment.check_witness(&self.filter))
    }
''', '''    fn rights_all(&self) -> impl Iterator<Item = &OutputAssignment<VoidState>> {
        let filter = &self.filter;
        let state = self.unfiltered.borrow();
        state.rights.iter().filter(move |item| item.check_witness(filter))
    }
''', 'S02', 0)

# ---- X01
mut('x1-q-entry', M, '''                let output = seal
                    .to_output_seal()
                    .expect("genesis seals always have outpoint");
                match index.outpoint_opouts.get_mut(&output) {
                    Some(opouts) => {
                        opouts.push(opout)?;
                    }
                    None => {
                        index.outpoint_opouts.insert(output, medium_bset!(opout))?;
                    }
                }
''', '''                let output = seal
                    .to_output_seal()
                    .expect("genesis seals always have outpoint");
                if let Some(opouts) = index.outpoint_opouts.get_mut(&output) {
                    opouts.push(opout)?;
                } else {
                    index.outpoint_opouts.insert(output, medium_bset!(opout))?;
                }
''', 'X01', 0)
mut('x1-q-contains', M, '''        match self.terminal_index.get_mut(&seal) {
            Some(existing_opouts) => {
                existing_opouts.push(opout)?;
            }
            None => {
                self.terminal_index.insert(seal, tiny_bset![opout])?;
''', '''        match self.terminal_index.get_mut(&seal) {
            Some(existing_opouts) => existing_opouts.push(opout)?,
            None => {
                let opouts = tiny_bset![opout];
                self.terminal_index.insert(seal, opouts)?;
''', 'X01', 0)
mut('x1-q-filter', M, '''        if let Some(alt) = self
            .op_bundle_index
            .get(&opid)
            .filter(|alt| *alt != &bundle_id)
        {
            return Err(IndexInconsistency::DistinctBundleOp {
                opid,
                present: *alt,
                expected: bundle_id,
            }
            .into());
        }
''', '''        match self.op_bundle_index.get(&opid) {
            Some(present) if *present != bundle_id => {
                return Err(IndexInconsistency::DistinctBundleOp {
                    opid,
                    present: *present,
                    expected: bundle_id,
                }
                .into());
            }
            _ => {}
        }
''', 'X01', 0)
mut('x1-q-early', M, '''        if !self.contract_index.contains_key(&contract_id) {
            self.contract_index.insert(contract_id, empty!())?;
            Ok(true)
        } else {
            Ok(false)
        }
''', '''        if self.contract_index.contains_key(&contract_id) {
            return Ok(false);
        }
        self.contract_index.insert(contract_id, empty!())?;
        Ok(true)
''', 'X01', 0)
mut('x1-q-witness', X, '''        for WitnessBundle {
            pub_witness,
            anchored_bundles,
        } in consignment.bundled_witnesses()
        {
            let witness_id = pub_witness.to_witness_id();
            for bundle in anchored_bundles.bundles() {
                self.index_bundle(contract_id, bundle, witness_id)?;
            }
        }

        Ok(())
''', '''        for wb in consignment.bundled_witnesses() {
            for bundle in wb.anchored_bundles.bundles() {
                self.index_bundle(contract_id, bundle, wb.pub_witness.to_witness_id())?;
            }
        }

        Ok(())
''', 'X01', 0)
mut('x1-q-tryeach', X, '''        for extension in consignment.extensions() {
            self.index_extension(contract_id, extension)?;
        }
''', '''        consignment
            .extensions()
            .try_for_each(|extension| self.index_extension(contract_id, extension))?;
''', 'X01', 0)
mut('x1-q-bytype', X, '''        let opid = genesis.id();
        for (type_id, assign) in genesis.assignments.iter() {
            match assign {
                TypedAssigns::Declarative(vec) => {
                    self.provider
                        .index_genesis_assignments(id, vec, opid, *type_id)?;
                }
                TypedAssigns::Fungible(vec) => {
                    self.provider
                        .index_genesis_assignments(id, vec, opid, *type_id)?;
                }
                TypedAssigns::Structured(vec) => {
                    self.provider
                        .index_genesis_assignments(id, vec, opid, *type_id)?;
                }
                TypedAssigns::Attachment(vec) => {
                    self.provider
                        .index_genesis_assignments(id, vec, opid, *type_id)?;
                }
            }
        }
        Ok(())
''', '''        self.index_seals(id, genesis.id(), &genesis.assignments)
    }

    fn index_seals(
        &mut self,
        id: ContractId,
        opid: OpId,
        assignments: &rgb::Assignments<rgb::GenesisSeal>,
    ) -> Result<(), IndexError<P>> {
        let provider = &mut self.provider;
        for (ty, assign) in assignments.iter() {
            match assign {
                TypedAssigns::Declarative(vec) => {
                    provider.index_genesis_assignments(id, vec, opid, *ty)
                }
                TypedAssigns::Fungible(vec) => {
                    provider.index_genesis_assignments(id, vec, opid, *ty)
                }
                TypedAssigns::Structured(vec) => {
                    provider.index_genesis_assignments(id, vec, opid, *ty)
                }
                TypedAssigns::Attachment(vec) => {
                    provider.index_genesis_assignments(id, vec, opid, *ty)
                }
            }?;
        }
        Ok(())
''', 'X01', 0)
mut('x1-q-seal', M, '''        for (no, assign) in vec.iter().enumerate() {
            let opout = Opout::new(opid, type_id, no as u16);
            if let Assign::Confidential { seal, .. } | Assign::ConfidentialSeal { seal, .. } =
                assign
            {
                self.add_terminal(*seal, opout)?;
            }
        }
        Ok(())
''', '''        for (no, assign) in vec.iter().enumerate() {
            let seal = match assign {
                Assign::Confidential { seal, .. } | Assign::ConfidentialSeal { seal, .. } => *seal,
                Assign::ConfidentialState { .. } | Assign::Revealed { .. } => continue,
            };
            self.add_terminal(seal, Opout::new(opid, type_id, no as u16))?;
        }
        Ok(())
''', 'X01', 0)

# ---- X02
mut('x2-q-any', M, '''                outpoints.clone().into_iter().filter_map(|outpoint| {
                    if index
                        .outpoint_opouts
                        .keys()
                        .any(|seal| seal.to_outpoint() == outpoint)
                    {
                        Some(*contract_id)
                    } else {
                        None
                    }
                })
''', '''                outpoints
                    .clone()
                    .into_iter()
                    .filter(|outpoint| {
                        index
                            .outpoint_opouts
                            .keys()
                            .any(|seal| seal.to_outpoint() == *outpoint)
                    })
                    .map(|_| *contract_id)
''', 'X02', 0)
mut('x2-q-terms', M, '''        Ok(self
            .terminal_index
            .iter()
            .filter(|(seal, _)| terminals.contains(*seal))
            .flat_map(|(_, opout)| opout.iter())
            .copied()
            .collect())
''', '''        let mut opouts = BTreeSet::new();
        for (seal, set) in &self.terminal_index {
            if terminals.contains(seal) {
                opouts.extend(set.iter().copied());
            }
        }
        Ok(opouts)
''', 'X02', 0)
mut('x2-q-terms2', M, '''        let terminals = terminals.into_iter().collect::<BTreeSet<_>>();
        Ok(self
            .terminal_index
            .iter()
            .filter(|(seal, _)| terminals.contains(*seal))
            .flat_map(|(_, opout)| opout.iter())
            .copied()
            .collect())
''', '''        Ok(terminals
            .into_iter()
            .filter_map(|seal| self.terminal_index.get(&seal))
            .flat_map(|opouts| opouts.iter().copied())
            .collect())
''', 'X02', 0)
mut('x2-q-match', M, '''        self.op_bundle_index
            .get(&opid)
            .copied()
            .ok_or(IndexInconsistency::BundleAbsent(opid).into())
''', '''        match self.op_bundle_index.get(&opid) {
            Some(bundle_id) => Ok(*bundle_id),
            None => Err(IndexInconsistency::BundleAbsent(opid).into()),
        }
''', 'X02', 0)
mut('x2-q-info', M, '''        let witness_id = self
            .bundle_witness_index
            .get(&bundle_id)
            .ok_or(IndexInconsistency::BundleWitnessUnknown(bundle_id))?;
''', '''        let Some(witness_id) = self.bundle_witness_index.get(&bundle_id) else {
            return Err(IndexInconsistency::BundleWitnessUnknown(bundle_id).into());
        };
''', 'X02', 0)
