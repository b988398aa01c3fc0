from mut import *
F='src/containers/anchors.rs'
mut('bug-allopid',F,'.all(|id| *id != opid)','.any(|id| *id != opid)','A01')
mut('bug-opret-id',F,'''                if opret.bundle.bundle_id() == bundle_id =>
            {
                Some(&mut opret.bundle)''','''                if opret.bundle.bundle_id() != bundle_id =>
            {
                Some(&mut opret.bundle)''','A01')
mut('bug-dropdouble',F,'''            AnchoredBundles::Opret(opret) | AnchoredBundles::Double { opret, .. }
                if opret''','''            AnchoredBundles::Opret(opret)
                if opret''','A01')
mut('bug-first',F,'''            .values_mut()
            .flat_map(|t| t.assignments.values_mut())''','''            .values_mut()
            .take(1)
            .flat_map(|t| t.assignments.values_mut())''','A01')
mut('ref-loops',F,'''        bundle
            .known_transitions
            .values_mut()
            .flat_map(|t| t.assignments.values_mut())
            .for_each(|a| a.reveal_seal(seal));
''','''        for transition in bundle.known_transitions.values_mut() {
            for assigns in transition.assignments.values_mut() {
                assigns.reveal_seal(seal);
            }
        }
''','A01',0)
mut('ref-matches',F,'''        let Some(bundle) = bundle else {
            return false;
        };
        bundle
            .known_transitions
            .values_mut()
            .flat_map(|t| t.assignments.values_mut())
            .for_each(|a| a.reveal_seal(seal));

        true
''','''        fn reveal_all(bundle: &mut TransitionBundle, seal: XGraphSeal) {
            bundle
                .known_transitions
                .values_mut()
                .for_each(|t| t.assignments.values_mut().for_each(|a| a.reveal_seal(seal)));
        }
        match bundle {
            Some(b) => {
                reveal_all(b, seal);
                true
            }
            None => false,
        }
''','A01',0)
mut('ref-contains',F,'''        if self.bundle.input_map.values().all(|id| *id != opid) {''','''        if !self.bundle.input_map.values().any(|id| *id == opid) {''','A01',0)
mut('ref-lets',F,'''        let opid = transition.id();
        if self.bundle.input_map.values().all(|id| *id != opid) {
            return Err(UnrelatedTransition(opid, transition));
        }
        if self''','''        let opid = transition.id();
        let mut related = false;
        for id in self.bundle.input_map.values() {
            if *id == opid {
                related = true;
                break;
            }
        }
        if !related {
            return Err(UnrelatedTransition(opid, transition));
        }
        if self''','A01',0)
mut('bug-swap',F,'''AnchoredBundles::Double {
                    tapret: ClientBundle::new(other.mpc_proof, tapret, other.bundle),
                    opret,''','''AnchoredBundles::Double {
                    tapret: ClientBundle::new(opret.mpc_proof.clone(), tapret, other.bundle),
                    opret,''','A01')
G='src/contract/assignments.rs'
mut('bug-conf',G,'''                    Assign::Confidential { seal, state, lock } if *seal == revealed.conceal() => {
                        *assign = Assign::ConfidentialState {
                            seal: revealed,
                            state: *state,
                            lock: *lock,
                        }
                    }
                    _ => {}''','''                    _ => {}''','A01')
mut('bug-break',G,'''                            state: *state,
                            lock: *lock,
                        }
                    }
                    _ => {}''','''                            state: *state,
                            lock: *lock,
                        };
                        break;
                    }
                    _ => {}''','A01')
