from mut import *
F='src/persistence/state.rs'
mut('b-used-break',F,'''                    if *used {
                        continue;
                    }''','''                    if *used {
                        break;
                    }''','S03')
mut('b-first-only',F,'''            for transition in witness_bundle.known_transitions() {''','''            for transition in witness_bundle.known_transitions().take(1) {''','S03')
mut('b-ext-all',F,'''            if let Some((witness_id, witness_ord)) = ordered_extensions.get(&extension.id()) {
                state
                    .add_extension(extension, *witness_id, *witness_ord)
                    .map_err(StateError::WriteProvider)?;
            }''','''            if let Some((witness_id, witness_ord)) = ordered_extensions.get(&extension.id()) {
                state
                    .add_extension(extension, *witness_id, *witness_ord)
                    .map_err(StateError::WriteProvider)?;
                break;
            }''','S03')
mut('b-resolve-swallow',F,'''            let ord = resolver
                .resolve_pub_witness_ord(witness_id)
                .map_err(|e| StateError::Resolver(witness_id, e))?;
            updater''','''            let Ok(ord) = resolver.resolve_pub_witness_ord(witness_id) else {
                continue;
            };
            updater''','S03')
mut('b-novalid',F,'''                return Ok(witness_id);
            }
        }
        Err(StateError::AbsentValidWitness)''','''                return Ok(witness_id);
            }
            break;
        }
        Err(StateError::AbsentValidWitness)''','S03')
mut('r-hoist',F,'''        for transition in bundle.known_transitions.values() {
            let ord = resolver
                .resolve_pub_witness_ord(witness_id)
                .map_err(|e| StateError::Resolver(witness_id, e))?;
            updater''','''        if bundle.known_transitions.is_empty() {
            return Ok(());
        }
        let ord = match resolver.resolve_pub_witness_ord(witness_id) {
            Ok(ord) => ord,
            Err(e) => return Err(StateError::Resolver(witness_id, e)),
        };
        for (_, transition) in &bundle.known_transitions {
            updater''','S03',0)
mut('r-wid',F,'''            for transition in witness_bundle.known_transitions() {
                let witness_id = witness_bundle.pub_witness.to_witness_id();
''','''            let witness_id = witness_bundle.pub_witness.to_witness_id();
            for transition in witness_bundle.known_transitions() {
''','S03',0)
mut('r-contains',F,'''                for (id, used) in &mut extension_idx {
                    if *used {
                        continue;
                    }
                    for input in &transition.inputs {
                        if input.prev_out.op == *id {
                            *used = true;
                            if let Some((_, witness_ord2)) = ordered_extensions.get_mut(id) {
                                if *witness_ord2 < witness_ord {
                                    *witness_ord2 = witness_ord;
                                }
                            } else {
                                ordered_extensions.insert(*id, (witness_id, witness_ord));
                            }
                        }
                    }
                }''','''                for input in &transition.inputs {
                    let id = input.prev_out.op;
                    if let Some(used) = extension_idx.get_mut(&id) {
                        if !*used {
                            *used = true;
                            ordered_extensions.insert(id, (witness_id, witness_ord));
                        }
                    }
                }''','S03',0)
mut('r-helper',F,[],'','S03',0) if 0 else None
mut('r-find',F,'''        for witness_id in witness_ids {
            let witness_id = *witness_id.borrow();
            if self
                .provider
                .is_valid_witness(witness_id)
                .map_err(StateError::ReadProvider)?
            {
                return Ok(witness_id);
            }
        }
        Err(StateError::AbsentValidWitness)''','''        let mut iter = witness_ids.into_iter();
        while let Some(witness_id) = iter.next() {
            let witness_id = *witness_id.borrow();
            match self.provider.is_valid_witness(witness_id) {
                Err(e) => return Err(StateError::ReadProvider(e)),
                Ok(false) => continue,
                Ok(true) => return Ok(witness_id),
            }
        }
        Err(StateError::AbsentValidWitness)''','S03',0)
