from mut import *
I = 'src/interface/iimpl.rs'
F = 'src/interface/iface.rs'
C = 'src/interface/contract.rs'
# --- lookups
mut('i-name', I, """        self.valencies
            .iter()
            .find(|nt| nt.id == id)""", """        self.valencies
            .iter()
            .find(|nt| nt.id != id)""", 'I01')
mut('i-list', I, """    pub fn global_type(&self, name: &FieldName) -> Option<GlobalStateType> {
        self.global_state
            .iter()
            .find(|nt| &nt.name == name)""", """    pub fn global_type(&self, name: &FieldName) -> Option<GlobalStateType> {
        self.global_state
            .iter()
            .take(1)
            .find(|nt| &nt.name == name)""", 'I01')
mut('i-prefix', I, """    pub fn transition_type(&self, name: &FieldName) -> Option<TransitionType> {
        self.transitions
            .iter()
            .find(|nt| &nt.name == name)""", """    pub fn transition_type(&self, name: &FieldName) -> Option<TransitionType> {
        self.transitions
            .iter()
            .find(|nt| nt.name.as_str().starts_with(name.as_str()))""", 'I01')
mut('iq-for', I, """        self.transitions
            .iter()
            .find(|nt| &nt.name == name)
            .map(|nt| nt.id)""", """        for nt in &self.transitions {
            if &nt.name == name {
                return Some(nt.id);
            }
        }
        None""", 'I01', 0)
mut('iq-findmap', I, """        self.errors
            .iter()
            .find(|nt| nt.id == errno)
            .map(|nt| &nt.name)""", """        self.errors
            .iter()
            .find_map(|nt| if nt.id == errno { Some(&nt.name) } else { None })""", 'I01', 0)
# --- check of implementations
mut('i-any', I, "            if self.global_state.iter().all(|field| &field.name != name) {", "            if self.global_state.iter().any(|field| &field.name != name) {", 'I01')
mut('i-otherlist', I, "            if self.valencies.iter().all(|field| &field.name != name) {", "            if self.extensions.iter().all(|field| &field.name != name) {", 'I01')
mut('i-othertypes', I, "            if !schema.extensions.contains_key(&field.id) {", "            if schema.extensions.is_empty() {", 'I01')
mut('i-dup', I, """        dup_transitions
            .iter()
            .filter(|(_, &count)| count > 1)""", """        dup_transitions
            .iter()
            .filter(|(_, &count)| count > 2)""", 'I01')
mut('i-dupmap', I, """        dup_valencies
            .iter()
            .filter(""", """        dup_assignments
            .iter()
            .filter(""", 'I01')
mut('i-count', I, """            dup_extensions
                .entry(field.name.clone())
                .and_modify(|counter| *counter += 1)
                .or_insert(1);""", """            dup_extensions
                .entry(field.name.clone())
                .and_modify(|counter| *counter = 1)
                .or_insert(1);""", 'I01')
mut('i-future', I, "            Some(ts) if ts > now => errors.push(ImplInconsistency::FutureTimestamp(ts)),", "            Some(ts) if ts < now => errors.push(ImplInconsistency::FutureTimestamp(ts)),", 'I01')
mut('i-verdict', I, """        if errors.is_empty() {
            Ok(())""", """        if errors.len() <= 1 {
            Ok(())""", 'I01')
mut('iq-loopcount', I, """            dup_metadata
                .entry(field.name.clone())
                .and_modify(|counter| *counter += 1)
                .or_insert(1);""", """            *dup_metadata.entry(field.name.clone()).or_insert(0) += 1;""", 'I01', 0)
mut('iq-loopdup', I, """        dup_valencies
            .iter()
            .filter(|(_, &count)| count > 1)
            .for_each(|(field_name, &count)| {
                errors.push(ImplInconsistency::RepeatedValencies(field_name.clone(), count));
            });""", """        for (field_name, count) in dup_valencies {
            if count <= 1 {
                continue;
            }
            errors.push(ImplInconsistency::RepeatedValencies(field_name, count));
        }""", 'I01', 0)
mut('iq-notany', I, "            if self.global_state.iter().all(|field| &field.name != name) {", "            if !self.global_state.iter().any(|field| &field.name == name) {", 'I01', 0)
mut('iq-flag', I, """            if self.valencies.iter().all(|field| &field.name != name) {
                errors""", """            let mut found = false;
            for field in &self.valencies {
                if &field.name == name {
                    found = true;
                    break;
                }
            }
            if !found {
                errors""", 'I01', 0)
mut('iq-lookup', I, """        for name in iface.assignments.keys() {
            if self.assignments.iter().all(|field| &field.name != name) {""", """        for name in iface.assignments.keys() {
            if self.assignments_type(name).is_none() {""", 'I01', 0)
mut('iq-two', I, """        for field in &self.valencies {
            dup_valencies
                .entry(field.name.clone())
                .and_modify(|counter| *counter += 1)
                .or_insert(1);

            if !schema""", """        for field in &self.valencies {
            dup_valencies
                .entry(field.name.clone())
                .and_modify(|counter| *counter += 1)
                .or_insert(1);
        }
        for field in &self.valencies {
            if !schema""", 'I01', 0)
# --- check of interfaces
mut('f-multi', F, "                    if occ.min_value() > 1 && !g.multiple {", "                    if occ.min_value() > 1 && g.multiple {", 'I02')
mut('f-min', F, "                        if occ.min_value() > 1 && !a.multiple {", "                        if occ.max_value() > 1 && !a.multiple {", 'I02')
mut('f-list', F, "            proc_errors(&op_name, &e.errors, &mut errors);", "            proc_errors(&op_name, &self.genesis.errors, &mut errors);", 'I02')
mut('f-skip', F, """            proc_valencies(&op_name, &t.valencies, &mut errors);
            proc_errors(&op_name, &t.errors, &mut errors);

            for""", """            proc_errors(&op_name, &t.errors, &mut errors);

            for""", 'I02')
mut('f-redeem', F, """            for name in &e.redeems {
                if self.valencies.get(name).is_none() {""", """            for name in &e.redeems {
                if self.assignments.get(name).is_none() {""", 'I02')
mut('f-default', F, "            if self.transitions.get(name).is_none() && self.extensions.get(name).is_none() {", "            if self.transitions.get(name).is_none() || self.extensions.get(name).is_none() {", 'I02')
mut('f-defassign', F, "                if e.assignments.get(name).is_none() {", "                if self.assignments.get(name).is_none() {", 'I02')
mut('f-required', F, "            if a.required && self.genesis.assignments.get(name).is_none() {", "            if !a.required && self.genesis.assignments.get(name).is_none() {", 'I02')
mut('f-repeat', F, "            if self.extensions.contains_key(name) {", "            if self.transitions.contains_key(name) {", 'I02')
mut('f-types', F, "            .chain(self.global_state.values().filter_map(|i| i.sem_id))\n", "", 'I02')
mut('f-opname', F, """            proc_globals(&op_name, &e.globals, &mut errors);""", """            proc_globals(&OpName::Genesis, &e.globals, &mut errors);""", 'I02')
mut('f-verdict', F, """        if errors.is_empty() {
            Ok(())
        } else {
            Err(errors)
        }
    }

    // TODO: Implement checking interface inheritance.""", """        if errors.is_empty() || errors.len() > 255 {
            Ok(())
        } else {
            Err(errors)
        }
    }

    // TODO: Implement checking interface inheritance.""", 'I02')
mut('fq-let', F, """                if let Some(g) = self.global_state.get(name) {
                    if occ.min_value() > 1 && !g.multiple {
                        errors.push(IfaceInconsistency::MultipleGlobal(
                            op_name.clone(),
                            name.clone(),
                        ));
                    }
                } else {
                    errors.push(IfaceInconsistency::UnknownGlobal(op_name.clone(), name.clone()));
                }""", """                let Some(g) = self.global_state.get(name) else {
                    errors.push(IfaceInconsistency::UnknownGlobal(op_name.clone(), name.clone()));
                    continue;
                };
                if g.multiple || occ.min_value() <= 1 {
                    continue;
                }
                errors.push(IfaceInconsistency::MultipleGlobal(op_name.clone(), name.clone()));""", 'I02', 0)
mut('fq-extend', F, """            for name in errs {
                if !self.errors.contains_key(name) {
                    errors.push(IfaceInconsistency::UnknownError(op_name.clone(), name.clone()));
                }
            }""", """            errors.extend(
                errs.iter()
                    .filter(|name| !self.errors.contains_key(*name))
                    .map(|name| IfaceInconsistency::UnknownError(op_name.clone(), name.clone())),
            );""", 'I02', 0)
mut('fq-order', F, """            proc_globals(&op_name, &e.globals, &mut errors);
            proc_assignments(&op_name, &e.assignments, &mut errors);
            proc_valencies(&op_name, &e.valencies, &mut errors);
            proc_errors(&op_name, &e.errors, &mut errors);

            for name in &e.redeems {
                if self.valencies.get(name).is_none() {
                    errors.push(IfaceInconsistency::UnknownRedeem(op_name.clone(), name.clone()));
                }
            }""", """            for name in &e.redeems {
                if !self.valencies.contains_key(name) {
                    errors.push(IfaceInconsistency::UnknownRedeem(op_name.clone(), name.clone()));
                }
            }
            proc_errors(&op_name, &e.errors, &mut errors);
            proc_valencies(&op_name, &e.valencies, &mut errors);
            proc_assignments(&op_name, &e.assignments, &mut errors);
            proc_globals(&op_name, &e.globals, &mut errors);""", 'I02', 0)
mut('fq-types', F, """        self.metadata
            .values()
            .copied()
            .chain(self.global_state.values().filter_map(|i| i.sem_id))
            .chain(""", """        self.global_state
            .values()
            .filter_map(|i| i.sem_id)
            .chain(self.metadata.values().copied())
            .chain(""", 'I02', 0)
mut('fq-default', F, """        if let Some(ref name) = self.default_operation {
            if self.transitions.get(name).is_none() && self.extensions.get(name).is_none() {
                errors.push(IfaceInconsistency::UnknownDefaultOp(name.clone()));
            }
        }""", """        match self.default_operation {
            Some(ref name)
                if !self.transitions.contains_key(name) && !self.extensions.contains_key(name) =>
            {
                errors.push(IfaceInconsistency::UnknownDefaultOp(name.clone()))
            }
            _ => {}
        }""", 'I02', 0)
mut('hq-keys', C, """        let mut witness_ids = allocations_our_witness
            .keys()
            .cloned()
            .collect::<BTreeSet<_>>();
        witness_ids.extend(allocations_our_outpoint.keys().filter_map(|x| *x));""", """        let mut witness_ids = BTreeSet::new();
        for id in allocations_our_outpoint.keys() {
            if let Some(id) = id {
                witness_ids.insert(*id);
            }
        }
        for id in allocations_our_witness.keys() {
            witness_ids.insert(*id);
        }""", 'H01', 0)
