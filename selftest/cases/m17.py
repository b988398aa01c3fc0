from mut import *
C = 'src/interface/contract.rs'
F = 'src/interface/filter.rs'
mut('q-ty', C, '.filter(move |outp| outp.opout.ty == type_id)', '.filter(move |outp| outp.opout.ty >= type_id)', 'Q01')
mut('q-noty', C, '            .filter(move |outp| outp.opout.ty == type_id)\n', '            .filter(move |_| { let _ = type_id; true })\n', 'Q01')
mut('q-kind', C, 'self.extract_state(self.state.data_all(), name, filter)', 'self.extract_state(self.state.data_all().skip(1), name, filter)', 'Q01')
mut('q-wit', C, '.filter(move |outp| filter.should_include(outp.seal, outp.witness)))\n', '.filter(move |outp| filter.should_include(outp.seal, None)))\n', 'Q01')
mut('q-nof', C, '                .filter(move |outp| filter.should_include(outp.seal, outp.witness))\n                .cloned()', '                .filter(move |outp| outp.witness.is_none() || filter.should_include(outp.seal, outp.witness))\n                .cloned()', 'Q01')
mut('q-drop', C, '            .chain(f(filter, self.state.data_all()).map(OwnedAllocation::from))\n', '', 'Q01')
mut('q-dup', C, 'f(filter, self.state.attach_all()).map(OwnedAllocation::from)', 'f(filter, self.state.data_all()).map(OwnedAllocation::from)', 'Q01')
mut('q-excl', F, '!self.0.should_include(outpoint.into(), witness_id)', '!self.0.should_include(outpoint.into(), None)', 'Q01')
mut('q-opt', F, '.unwrap_or(true)', '.unwrap_or(false)', 'Q01')
mut('q-wid', C, 'let ord = self.state.witness_ord(witness_id)?;', 'let ord = self.state.witness_ord(witness_id).unwrap_or(rgb::vm::WitnessOrd::Tentative);', 'Q01')
mut('qq-loop', C, """        Ok(state
            .into_iter()
            .filter(move |outp| outp.opout.ty == type_id)
            .cloned()
            .map(OutputAssignment::<A>::transmute))""", """        Ok(state.into_iter().filter_map(move |outp| {
            if outp.opout.ty != type_id {
                return None;
            }
            Some(outp.clone().transmute())
        }))""", 'Q01', 0)
mut('qq-name', C, """        let type_id = self
            .iface
            .assignments_type(&name)
            .ok_or(ContractError::FieldNameUnknown(name))?;
        Ok(state""", """        let Some(type_id) = self.iface.assignments_type(&name) else {
            return Err(ContractError::FieldNameUnknown(name));
        };
        Ok(state""", 'Q01', 0)
mut('qq-opt', F, """        self.as_ref()
            .map(|filter| filter.should_include(outpoint, witness_id))
            .unwrap_or(true)""", """        match self {
            None => true,
            Some(filter) => filter.should_include(outpoint, witness_id),
        }""", 'Q01', 0)
mut('qq-has', F, """impl AssignmentsFilter for Vec<XOutpoint> {
    fn should_include(&self, outpoint: impl Into<XOutpoint>, _: Option<XWitnessId>) -> bool {
        self.contains(&outpoint.into())""", """impl AssignmentsFilter for Vec<XOutpoint> {
    fn should_include(&self, outpoint: impl Into<XOutpoint>, _: Option<XWitnessId>) -> bool {
        let outpoint = outpoint.into();
        self.iter().any(|o| *o == outpoint)""", 'Q01', 0)
mut('h-dirs', C, 'direction: OpDirection::Sent,\n            ty: a', 'direction: OpDirection::Received,\n            ty: a', 'H01')
mut('h-dirf', C, 'direction: OpDirection::Received,\n            ty: reduce', 'direction: OpDirection::Issued,\n            ty: reduce', 'H01')
mut('h-op', C, """        let opids = ext_allocations.iter().map(|a| a.opout.op).collect();""", """        let opids = ext_allocations.iter().take(1).map(|a| a.opout.op).collect();""", 'H01')
mut('h-sum', C, """        let amount = our_allocations
            .iter()
            .map(|a| a.state.unwrap_fungible())
            .sum();""", """        let amount = our_allocations
            .iter()
            .map(|a| a.state.unwrap_fungible())
            .max()
            .unwrap_or_default();""", 'H01')
mut('h-wit', C, """            state: AllocatedState::Amount(amount),
            to,
            witness: Some(witness),
        }
    }

    fn fungible_received""", """            state: AllocatedState::Amount(amount),
            to,
            witness: None,
        }
    }

    fn fungible_received""", 'H01')
mut('h-ids', C, '        witness_ids.extend(allocations_our_outpoint.keys().filter_map(|x| *x));\n', '', 'H01')
mut('h-ids2', C, """        let mut witness_ids = allocations_our_witness
            .keys()
            .cloned()
            .collect::<BTreeSet<_>>();
""", """        let mut witness_ids = BTreeSet::new();
""", 'H01')
mut('h-diff', C, """                    let ext_allocations = all_allocations
                        .difference(&our_allocations)""", """                    let ext_allocations = our_allocations
                        .difference(&all_allocations)""", 'H01')
mut('h-inter', C, ".difference(&our_allocations)", ".intersection(&our_allocations)", 'H01')
mut('h-both', C, 'ops.push(ContractOp::fungible_received(witness_info, allocations))', 'ops.push(ContractOp::fungible_sent(witness_info, allocations))', 'H01')
mut('h-single', C, """                (None, Some(ext_allocations)) => {
                    if T::IS_FUNGIBLE {""", """                (None, Some(ext_allocations)) => {
                    if ext_allocations.len() > 1 && T::IS_FUNGIBLE {
                        continue;
                    }
                    if T::IS_FUNGIBLE {""", 'H01')
mut('h-filter', C, """            .filter(move |outp| filter_witnesses.should_include(outp.seal, outp.witness))""", """            .filter(move |outp| filter_witnesses.should_include(outp.seal, outp.witness) && outp.opout.no == 0)""", 'H01')
mut('h-gen', C, """            if T::IS_FUNGIBLE {
                for (_, allocations) in split_by_ty(genesis_allocations) {
                    ops.push(ContractOp::fungible_genesis(allocations));
                }
            } else {""", """            if T::IS_FUNGIBLE {
                if let Some((_, allocations)) = split_by_ty(genesis_allocations).pop_first() {
                    ops.push(ContractOp::fungible_genesis(allocations));
                }
            } else {""", 'H01')
mut('h-hist', C, '            .chain(self.history_data(filter_outpoints.clone(), filter_witnesses.clone()))\n', '', 'H01')
mut('h-swap', C, 'self.history_rights(filter_outpoints.clone(), filter_witnesses.clone())', 'self.history_rights(filter_witnesses.clone(), filter_outpoints.clone())', 'H01')
mut('hq-loop', C, """                    let ext_allocations = all_allocations
                        .difference(&our_allocations)
                        .cloned()
                        .collect::<HashSet<_>>();""", """                    let mut ext_allocations = HashSet::new();
                    for a in all_allocations.difference(&our_allocations) {
                        ext_allocations.insert(a.clone());
                    }""", 'H01', 0)
mut('hq-amount', C, """        let amount = our_allocations
            .iter()
            .map(|a| a.state.unwrap_fungible())
            .sum();""", """        let mut amount = Amount::ZERO;
        for a in &our_allocations {
            amount += a.state.unwrap_fungible();
        }""", 'H01', 0)
mut('hq-order', C, """            let our_outpoint = allocations_our_outpoint.remove(&Some(witness_id));
            let our_witness = allocations_our_witness.remove(&witness_id);""", """            let our_witness = allocations_our_witness.remove(&witness_id);
            let our_outpoint = allocations_our_outpoint.remove(&Some(witness_id));""", 'H01', 0)
mut('hq-neg', C, """                    if ext_allocations.is_empty() {
                        continue;
                    }
                    if T::IS_FUNGIBLE {""", """                    if ext_allocations.len() == 0 {
                        continue;
                    }
                    if T::IS_FUNGIBLE {""", 'H01', 0)
mut('hq-helper', C, """                    if T::IS_FUNGIBLE {
                        for (_, allocations) in split_by_ty(our_allocations) {
                            ops.push(ContractOp::fungible_received(witness_info, allocations))
                        }
                    } else {
                        ops.extend(ContractOp::non_fungible_received(witness_info, our_allocations))
                    }""", """                    if !T::IS_FUNGIBLE {
                        ops.extend(ContractOp::non_fungible_received(witness_info, our_allocations));
                    } else {
                        ops.extend(
                            split_by_ty(our_allocations)
                                .into_values()
                                .map(|a| ContractOp::fungible_received(witness_info, a)),
                        );
                    }""", 'H01', 0)
mut('hq-fold', C, """            .fold(HashMap::<_, HashSet<_>>::new(), |mut map, a| {
                map.entry(a.witness)
                    .or_default()
                    .insert(a.clone().transmute::<AllocatedState>());
                map
            });""", """            .fold(HashMap::<_, HashSet<_>>::new(), |mut map, a| {
                let set: &mut HashSet<_> = map.entry(a.witness).or_default();
                set.insert(a.clone().transmute::<AllocatedState>());
                map
            });""", 'H01', 0)
