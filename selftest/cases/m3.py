from mut import *
F='src/persistence/memory.rs'
L='''            if matches!(ord, WitnessOrd::Mined(pos) if pos.height() < after_height) {
                continue;
            }
            match resolver.resolve_pub_witness_ord(*id) {
                Ok(new) => {
                    *ord = new;
                    succeeded += 1;
                }
                Err(err) => {
                    failed.insert(*id, err.to_string());
                }
            }
'''
mut('ref-iflet',F,L,'''            if let WitnessOrd::Mined(pos) = ord {
                if pos.height() < after_height {
                    continue;
                }
            }
            let res = resolver.resolve_pub_witness_ord(*id);
            if let Err(err) = res {
                failed.insert(*id, err.to_string());
                continue;
            }
            *ord = res.unwrap();
            succeeded += 1;
''','W01',0)
mut('ref-rebuild',F,'''        for (id, ord) in &mut witnesses {
'''+L+'''        }
        let mut witnesses =
            LargeOrdMap::try_from(witnesses).inspect_err(|_| self.rollback_transaction())?;
''','''        let mut updated = BTreeMap::new();
        for (id, ord) in witnesses {
            if matches!(ord, WitnessOrd::Mined(pos) if pos.height() < after_height) {
                updated.insert(id, ord);
                continue;
            }
            match resolver.resolve_pub_witness_ord(id) {
                Ok(new) => {
                    updated.insert(id, new);
                    succeeded += 1;
                }
                Err(err) => {
                    failed.insert(id, err.to_string());
                    updated.insert(id, ord);
                }
            }
        }
        let mut witnesses =
            LargeOrdMap::try_from(updated).inspect_err(|_| self.rollback_transaction())?;
''','W01',0)
mut('ref-helper',F,L,'''            let outdated = match ord {
                WitnessOrd::Mined(pos) => pos.height() >= after_height,
                _ => true,
            };
            if outdated {
                match resolver.resolve_pub_witness_ord(*id) {
                    Err(err) => {
                        failed.insert(*id, err.to_string());
                    }
                    Ok(new) => {
                        succeeded += 1;
                        *ord = new;
                    }
                }
            }
''','W01',0)
mut('bug-allmined',F,'WitnessOrd::Mined(pos) if pos.height() < after_height','WitnessOrd::Mined(_)','W01')
mut('bug-arch',F,L,'''            if matches!(ord, WitnessOrd::Archived) { continue; }
'''+L,'W01')
mut('bug-noset',F,'                    *ord = new;\n','                    let _ = new;\n','W01')
mut('bug-abort',F,'                    failed.insert(*id, err.to_string());\n','                    failed.insert(*id, err.to_string());\n                    break;\n','W01')
mut('bug-notfail',F,'                    failed.insert(*id, err.to_string());\n','                    failed.insert(*id, err.to_string());\n                    *ord = WitnessOrd::Archived;\n','W01')
mut('bug-invalid','src/persistence/state.rs','''                .map_err(StateError::ReadProvider)?
            {
                return''','''                .unwrap_or(true)
            {
                return''','W01')
