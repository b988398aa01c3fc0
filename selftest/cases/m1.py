from mut import *
F='src/contract/merge_reveal.rs'
old='''            let transition = match self_transitions.remove(&opid) {
                Some(transition) => transition.merge_reveal(other_transition)?,
                None => other_transition,
            };
            self_transitions.insert(opid, transition);
'''
mut('ref-if',F,old,'''            let merged = if let Some(t) = self_transitions.remove(&opid) {
                t.merge_reveal(other_transition)?
            } else {
                other_transition
            };
            self_transitions.insert(opid, merged);
''','M01',0)
mut('ref-get',F,old,'''            let merged = match self_transitions.get(&opid) {
                Some(t) => t.clone().merge_reveal(other_transition)?,
                None => other_transition,
            };
            self_transitions.insert(opid, merged);
''','M01',0)
mut('ref-contains',F,old,'''            if self_transitions.contains_key(&opid) {
                let t = self_transitions.remove(&opid).unwrap();
                self_transitions.insert(opid, t.merge_reveal(other_transition)?);
                continue;
            }
            self_transitions.insert(opid, other_transition);
''','M01',0)
mut('bug-drop-new',F,old,'''            if let Some(t) = self_transitions.remove(&opid) {
                self_transitions.insert(opid, t.merge_reveal(other_transition)?);
            }
''','M01',1)
mut('bug-overwrite',F,old,'''            self_transitions.insert(opid, other_transition);
''','M01',1)
mut('bug-keep',F,old,'''            self_transitions.entry(opid).or_insert(other_transition);
''','M01',1)
