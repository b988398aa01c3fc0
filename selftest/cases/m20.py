from mut import *
H = 'src/interface/inheritance.rs'
P = 'I04'
mut('y-type', H, 'if orig.sem_id.is_some() && e.sem_id != orig.sem_id', 'if orig.sem_id.is_some() && e.sem_id.is_some() && e.sem_id != orig.sem_id', P, 1)
mut('y-req', H, """                    } else if orig.required & !e.required {
                        errors.push(ExtensionError::GlobalOcc(name));""", """                    } else if !orig.required & e.required {
                        errors.push(ExtensionError::GlobalOcc(name));""", P, 1)
mut('y-req2', H, """                    } else if orig.required & !e.required {
                        errors.push(ExtensionError::AssignmentOcc(name));""", """                    } else if orig.multiple & !e.multiple {
                        errors.push(ExtensionError::AssignmentOcc(name));""", P, 1)
mut('y-public', H, """                    } else if orig.public & !e.public {
                        errors.push(ExtensionError::AssignmentPublic(name));
                    } else {""", """                    } else {""", P, 1)
mut('y-superset', H, 'if !orig.owned_state.is_superset(e.owned_state)', 'if !e.owned_state.is_superset(orig.owned_state)', P, 1)
mut('y-anydata', H, 'if self == Self::AnyData && matches!(other, Self::Data(_))', 'if self == Self::AnyData && matches!(other, Self::Data(_) | Self::AnyAttach)', P, 1)
mut('y-keepold', H, """                    if orig.required & !e.required {
                        errors.push(ExtensionError::ValencyOcc(name));
                    } else {
                        *orig = e;
                    }""", """                    if orig.required & !e.required {
                        errors.push(ExtensionError::ValencyOcc(name));
                    }""", P, 1)
mut('y-final', H, """        let op = OpName::Transition(op_name);
        if self.modifier.is_final() {""", """        let op = OpName::Transition(op_name);
        if self.modifier.is_final() && !ext.modifier.is_final() {""", P, 1)
mut('y-override', H, '(Self::Abstract | Self::Override, Self::Override | Self::Final)', '(Self::Abstract | Self::Override, Self::Override | Self::Abstract | Self::Final)', P, 1)
mut('y-occ', H, 'if orig.min_value() > occ.min_value()', 'if orig.min_value() >= occ.min_value()', P, 1)
mut('y-occmax', H, 'if orig.min_value() > occ.min_value()', 'if orig.max_value() > occ.max_value()', P, 1)
mut('y-occkeep', H, """                    errors.push(ExtensionError::OpOcc(op.clone(), state, name));
                } else {
                    *orig = occ;
                }""", """                    errors.push(ExtensionError::OpOcc(op.clone(), state, name));
                }""", P, 1)
mut('y-default', H, 'if self.default_operation.is_some() && self.default_operation != ext.default_operation', 'if self.default_operation.is_none() && self.default_operation != ext.default_operation', P, 1)
mut('y-nodefault', H, """        if ext.default_operation.is_some() {
            if self""", """        if ext.default_operation.is_none() {
            if self""", P, 1)
mut('y-inherit', H, '.and_then(|_| self.inherits.extend(ext.inherits))', '', P, 1)
mut('y-inherit2', H, '.push(orig_id)', '.push(ext_id)', P, 1)
mut('y-name', H, """        self.name = name;
""", """        let _ = name;
""", P, 1)
mut('y-errs', H, """                    orig.extended(op, name.clone())
                        .map(|op| self.extensions.insert(name, op).expect("same size"))
                        .map_err(|errs| errors.extend(errs))
                        .ok();""", """                    orig.extended(op, name.clone())
                        .map(|op| self.extensions.insert(name, op).expect("same size"))
                        .ok();""", P, 1)
mut('y-err1', H, """            .map(|genesis| self.genesis = genesis)
            .map_err(|errs| errors.extend(errs))""", """            .map(|genesis| self.genesis = genesis)
            .map_err(|errs| errors.extend(errs.into_iter().skip(1)))""", P, 1)
mut('y-genesis', H, """            .map(|genesis| self.genesis = genesis)
""", """            .map(|_| ())
""", P, 1)
mut('y-opname', H, 'let op = OpName::Extension(op_name);', 'let op = OpName::Transition(op_name);', P, 1)
mut('y-overflow', H, """                        .extensions
                        .insert(name, op)
                        .map_err(|_| errors.push(ExtensionError::ExtensionOverflow))""", """                        .extensions
                        .insert(name, op)
                        .map_err(|_| errors.push(ExtensionError::TransitionOverflow))""", P, 1)
mut('y-break', H, """                    } else if orig.required & !e.required {
                        errors.push(ExtensionError::GlobalOcc(name));
""", """                    } else if orig.required & !e.required {
                        errors.push(ExtensionError::GlobalOcc(name));
                        break;
""", P, 1)
mut('y-inputs', H, """        check_occs(&mut self.inputs, ext.inputs, op.clone(), "input", &mut errors);
""", '', P, 1)
mut('y-redeems', H, 'check_presence(&mut self.redeems, ext.redeems,', 'check_presence(&mut self.redeems, self.valencies.clone(),', P, 1)
mut('y-ok', H, """        check_presence(&mut self.redeems, ext.redeems, op.clone(), "input", &mut errors);
        check_presence(&mut self.errors, ext.errors, op.clone(), "error", &mut errors);
""", """        check_presence(&mut self.redeems, ext.redeems, op.clone(), "input", &mut errors);
        let mut errors = vec![];
        check_presence(&mut self.errors, ext.errors, op.clone(), "error", &mut errors);
""", P, 1)
mut('y-defassign', H, """                && self.default_assignment != ext.default_assignment
            {
                errors.push(ExtensionError::OpDefaultOverride(op.clone()));""", """                && self.default_assignment == ext.default_assignment
            {
                errors.push(ExtensionError::OpDefaultOverride(op.clone()));""", P, 1, cnt=2)
# behaviour-preserving
mut('yq-match', H, """                Some(orig) => {
                    if orig.sem_id.is_some() && e.sem_id != orig.sem_id {
                        errors.push(ExtensionError::GlobalType(name));
                    } else if orig.required & !e.required {
                        errors.push(ExtensionError::GlobalOcc(name));
                    } else {
                        *orig = e;
                    }
                }""", """                Some(orig) if orig.sem_id.is_some() && e.sem_id != orig.sem_id => {
                    errors.push(ExtensionError::GlobalType(name));
                }
                Some(orig) if orig.required && !e.required => {
                    errors.push(ExtensionError::GlobalOcc(name));
                }
                Some(orig) => *orig = e,""", P, 0)
mut('yq-insert', H, """                Some(orig) => {
                    if orig.required & !e.required {
                        errors.push(ExtensionError::ValencyOcc(name));
                    } else {
                        *orig = e;
                    }
                }""", """                Some(orig) => {
                    let weaker = orig.required && !e.required;
                    if weaker {
                        errors.push(ExtensionError::ValencyOcc(name));
                        continue;
                    }
                    self.valencies.insert(name, e).expect("same size");
                }""", P, 0)
mut('yq-default', H, """        if ext.default_operation.is_some() {
            if self.default_operation.is_some() && self.default_operation != ext.default_operation {
                errors.push(ExtensionError::DefaultOverride);
            } else {
                self.default_operation = ext.default_operation
            }
        }
""", """        match (&self.default_operation, ext.default_operation) {
            (Some(own), Some(other)) if own != &other => {
                errors.push(ExtensionError::DefaultOverride)
            }
            (_, Some(other)) => self.default_operation = Some(other),
            (_, None) => {}
        }
""", P, 0)
mut('yq-genesis', H, """        self.clone()
            .genesis
            .extended(ext.genesis)
            .map(|genesis| self.genesis = genesis)
            .map_err(|errs| errors.extend(errs))
            .ok();
""", """        match self.genesis.clone().extended(ext.genesis) {
            Ok(genesis) => self.genesis = genesis,
            Err(errs) => errors.extend(errs),
        }
""", P, 0)
mut('yq-trans', H, """                Ok(Some(orig)) => {
                    orig.extended(op, name.clone())
                        .map(|op| self.transitions.insert(name, op).expect("same size"))
                        .map_err(|errs| errors.extend(errs))
                        .ok();
                }""", """                Ok(Some(orig)) => match orig.extended(op, name.clone()) {
                    Err(errs) => {
                        for err in errs {
                            errors.push(err);
                        }
                    }
                    Ok(op) => {
                        self.transitions.insert(name, op).expect("same size");
                    }
                },""", P, 0)
mut('yq-check', [(H, """        if self.modifier.is_final() {
            errors.push(ExtensionError::OpFinal(op.clone()));
        } else if !self.modifier.can_be_overridden_by(ext.modifier) {
            errors.push(ExtensionError::OpNoOverride(op.clone()));
        }

        self.metadata
            .extend(ext.metadata)
            .map_err(|_| errors.push(ExtensionError::OpOverflow(OpName::Genesis, "metadata")))
            .ok();""", """        check_modifier(self.modifier, ext.modifier, &op, &mut errors);

        if self.metadata.extend(ext.metadata).is_err() {
            errors.push(ExtensionError::OpOverflow(op.clone(), "metadata"));
        }"""), (H, """impl GenesisIface {
    pub fn extended""", """fn check_modifier(orig: Modifier, ext: Modifier, op: &OpName, errors: &mut Vec<ExtensionError>) {
    match (orig, ext) {
        (Modifier::Final, _) => errors.push(ExtensionError::OpFinal(op.clone())),
        (_, Modifier::Abstract) => errors.push(ExtensionError::OpNoOverride(op.clone())),
        _ => {}
    }
}

impl GenesisIface {
    pub fn extended""")], '', '', P, 0)
mut('yq-occs', H, """        match orig.get_mut(&name) {
            None => {
                if orig
                    .insert(name, occ)
                    .map_err(|_| errors.push(ExtensionError::OpOverflow(op.clone(), state)))
                    .is_err()
                {
                    break;
                }
            }
            Some(orig) => {
                if orig.min_value() > occ.min_value() {
                    errors.push(ExtensionError::OpOcc(op.clone(), state, name));
                } else {
                    *orig = occ;
                }
            }
        }""", """        if let Some(prev) = orig.get(&name) {
            if occ.min_value() < prev.min_value() {
                errors.push(ExtensionError::OpOcc(op.clone(), state, name));
                continue;
            }
        }
        if orig.insert(name, occ).is_err() {
            errors.push(ExtensionError::OpOverflow(op, state));
            return;
        }""", P, 0)
mut('yq-superset', H, """        if self == Self::Any {
            return true;
        }
        if self == Self::AnyData && matches!(other, Self::Data(_)) {
            return true;
        }
        self == other""", """        match (self, other) {
            (Self::Any, _) | (Self::AnyData, Self::Data(_)) => true,
            _ => self == other,
        }""", P, 0)
mut('yq-inherits', H, """        self.inherits
            .push(orig_id)
            .and_then(|_| self.inherits.extend(ext.inherits))
            .and_then(|_| self.inherits.push(ext_id))
            .map_err(|_| errors.push(ExtensionError::InheritanceOverflow))
            .ok();""", """        let mut ids = vec![orig_id];
        ids.extend(ext.inherits);
        ids.push(ext_id);
        if self.inherits.extend(ids).is_err() {
            errors.push(ExtensionError::InheritanceOverflow);
        }""", P, 0)
