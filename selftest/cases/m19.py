from mut import *
H = 'src/interface/inheritance.rs'
mut('n-known', H, "            if !root.valency_types.contains(valencies_type) {", "            if root.valency_types.contains(valencies_type) {", 'I03')
mut('n-format', H, "                Some(root_data_format) if root_data_format != data_format => {", "                Some(root_data_format) if root_data_format == data_format => {", 'I03')
mut('n-absent', H, "                None => status.push(InheritanceFailure::AssignmentTypeMismatch(*assignments_type)),", "                None => {}", 'I03')
mut('n-root', H, "            if let Some(root_extension_schema) = root.extensions.get(type_id) {", "            if let Some(root_extension_schema) = self.extensions.get(type_id) {", 'I03')
mut('n-drop', H, """            .check_schema_op_inheritance(OpFullType::Genesis, &root.genesis)
            .map_err(|e| status.extend(e))
            .ok();""", """            .check_schema_op_inheritance(OpFullType::Genesis, &root.genesis)
            .ok();""", 'I03')
mut('n-first', H, """                        OpFullType::StateTransition(*type_id),
                        root_transition_schema,
                    )
                    .map_err(|e| status.extend(e))""", """                        OpFullType::StateTransition(*type_id),
                        root_transition_schema,
                    )
                    .map_err(|e| status.extend(e.into_iter().take(1)))""", 'I03')
mut('n-occ', H, """                None => status.push(InheritanceFailure::OpAssignmentsMismatch(op_type, *type_id)),
                Some(root_occ) if occ != root_occ => {""", """                None => status.push(InheritanceFailure::OpAssignmentsMismatch(op_type, *type_id)),
                Some(root_occ) if occ.min_value() != root_occ.min_value() => {""", 'I03')
mut('n-inputs', H, "                match root_inputs.get(type_id) {", "                match root.assignments().get(type_id) {", 'I03')
mut('n-redeem', H, "                if !root_redeems.contains(type_id) {", "                if !root.valencies().contains(type_id) {", 'I03')
mut('n-status', H, """        if status.is_empty() {
            Ok(())
        } else {
            Err(status)
        }
    }
}

/// Trait used""", """        if status.len() < 2 {
            Ok(())
        } else {
            Err(status)
        }
    }
}

/// Trait used""", 'I03')
mut('n-abs', H, "        if !base.inherits.contains(&parent_id) {", "        if base.inherits.contains(&parent_id) {", 'I03')
mut('n-abs2', H, ".find(|i| parent.transitions.contains_key(name) && &i.name == name)", ".find(|i| parent.extensions.contains_key(name) && &i.name == name)", 'I03')
mut('n-abs3', H, "        self.iface_id = parent_id;\n", "", 'I03')
mut('n-abs4', H, ".find(|i| parent.assignments.contains_key(name) && &i.name == name)", ".find(|i| parent.assignments.contains_key(name) && &i.name >= name)", 'I03')
mut('n-abs5', H, """        self.extensions = Confined::from_iter_checked(base.extensions.keys().filter_map(|name| {""", """        self.extensions = Confined::from_iter_checked(base.transitions.keys().filter_map(|name| {""", 'I03')
mut('n-abs6', H, ".find(|i| parent.valencies.contains_key(name) && &i.name == name)", ".find(|i| &i.name == name)", 'I03')
mut('nq-match', H, """            match root.global_types.get(global_type) {
                None => status.push(InheritanceFailure::GlobalStateMismatch(*global_type)),
                Some(root_data_format) if root_data_format != data_format => {
                    status.push(InheritanceFailure::GlobalStateMismatch(*global_type))
                }
                _ => {}
            };""", """            if root.global_types.get(global_type) != Some(data_format) {
                status.push(InheritanceFailure::GlobalStateMismatch(*global_type));
            }""", 'I03', 0)
mut('nq-iflet', H, """        self.genesis
            .check_schema_op_inheritance(OpFullType::Genesis, &root.genesis)
            .map_err(|e| status.extend(e))
            .ok();""", """        if let Err(e) =
            self.genesis.check_schema_op_inheritance(OpFullType::Genesis, &root.genesis)
        {
            status.extend(e);
        }""", 'I03', 0)
mut('nq-letelse', H, """            if let Some(root_extension_schema) = root.extensions.get(type_id) {
                extension_schema
                    .check_schema_op_inheritance(
                        OpFullType::StateExtension(*type_id),
                        root_extension_schema,
                    )
                    .map_err(|e| status.extend(e))
                    .ok();
            } else {
                status.push(InheritanceFailure::ExtensionTypeMismatch(*type_id));
            }""", """            let Some(root_extension_schema) = root.extensions.get(type_id) else {
                status.push(InheritanceFailure::ExtensionTypeMismatch(*type_id));
                continue;
            };
            let op_type = OpFullType::StateExtension(*type_id);
            let res = extension_schema.check_schema_op_inheritance(op_type, root_extension_schema);
            for failure in res.err().into_iter().flatten() {
                status.push(failure);
            }""", 'I03', 0)
mut('nq-abs', H, """        self.metadata = Confined::from_iter_checked(base.metadata.keys().filter_map(|name| {
            self.metadata
                .iter()
                .find(|i| parent.metadata.contains_key(name) && &i.name == name)
                .cloned()
        }));
""", """        self.metadata = Confined::from_iter_checked(
            base.metadata
                .keys()
                .filter(|name| parent.metadata.contains_key(*name))
                .filter_map(|name| self.metadata.iter().find(|i| &i.name == name).cloned()),
        );
""", 'I03', 0)
mut('nq-absfor', H, """        self.valencies = Confined::from_iter_checked(base.valencies.keys().filter_map(|name| {
            self.valencies
                .iter()
                .find(|i| parent.valencies.contains_key(name) && &i.name == name)
                .cloned()
        }));
""", """        let mut valencies = vec![];
        for name in base.valencies.keys() {
            if !parent.valencies.contains_key(name) {
                continue;
            }
            if let Some(i) = self.valencies.iter().find(|i| &i.name == name) {
                valencies.push(i.clone());
            }
        }
        self.valencies = Confined::from_iter_checked(valencies);
""", 'I03', 0)
