from mut import *
M = 'src/persistence/memory.rs'
S = 'src/persistence/stock.rs'
I = 'src/info.rs'
C = 'src/containers/consignment.rs'
mut('d3-by', M, 'filter(|schema_ifaces| self.impl_for::<C>(schema_ifaces).is_ok())', 'filter(|schema_ifaces| self.impl_for::<C>(schema_ifaces).is_err())', 'D03')
mut('d3-gen', M, '.filter(|genesis| schema_ifaces.schema.schema_id() == genesis.schema_id)', '.filter(|genesis| schema_ifaces.schema.schema_id() != genesis.schema_id)', 'D03')
mut('d3-gen2', M, '                .filter(|genesis| schema_ifaces.schema.schema_id() == genesis.schema_id)\n', '                .filter(|_| !schema_ifaces.iimpls.is_empty())\n', 'D03')
mut('d3-gen3', M, """                .filter(|genesis| schema_ifaces.schema.schema_id() == genesis.schema_id)
        }))""", """                .filter(|genesis| schema_ifaces.schema.schema_id() == genesis.schema_id)
                .take(1)
        }))""", 'D03')
mut('d3-impl', M, 'C::IFACE_IDS.iter().find_map(|id| {', 'C::IFACE_IDS.iter().skip(1).find_map(|id| {', 'D03')
mut('d3-impl2', M, '.find(|iimpl| C::IFACE_IDS.contains(&iimpl.iface_id))', '.find(|iimpl| !C::IFACE_IDS.contains(&iimpl.iface_id))', 'D03')
mut('d3-impl3', M, 'let iface = self.iface(*id).ok()?;\n', 'let iface = self.iface(C::IFACE_IDS[0]).ok()?;\n                    let _ = id;\n', 'D03')
mut('d3-tap', M, """                AnchorSet::Tapret(anchor)
                | AnchorSet::Double {
                    tapret: anchor,
                    opret: _,
                } => Some(""", """                AnchorSet::Tapret(anchor) => Some(""", 'D03')
mut('d3-nonce', M, 'mpc: anchor.mpc_proof.commit_id(),\n                    nonce: anchor.dbc_proof.path_proof.nonce(),', 'mpc: anchor.mpc_proof.commit_id(),\n                    nonce: 0,', 'D03')
mut('d3-info', I, 'issuer: genesis.issuer.clone(),', 'issuer: Default::default(),', 'D03')
mut('d3-impls', I, 'iface_id: iimpl.iface_id,', 'iface_id: IfaceId::from([0u8; 32]),', 'D03')
mut('d3-inh', I, '.unwrap_or(IfaceRef::Id(*id))', '.unwrap_or(IfaceRef::Name(iface.name.clone()))', 'D03')
mut('d3-skip', S, 'Ok(self.stash.geneses()?.map(ContractInfo::with))', 'Ok(self.stash.geneses()?.skip(1).map(ContractInfo::with))', 'D03')
mut('d3-schema', I, '                .iimpls\n                .iter()\n', '                .iimpls\n                .iter()\n                .take(1)\n', 'D03')
mut('d3-q1', S, 'Ok(self.stash.geneses()?.map(ContractInfo::with))', 'let geneses = self.stash.geneses()?;\n        Ok(geneses.map(|genesis| ContractInfo::with(genesis)))', 'D03', 0)
mut('d3-q2', M, """        Ok(self.schemata_by::<C>()?.flat_map(|schema_ifaces| {
            self.geneses
                .values()
                .filter(|genesis| schema_ifaces.schema.schema_id() == genesis.schema_id)
        }))""", """        let mut list = Vec::new();
        for schema_ifaces in self.schemata_by::<C>()? {
            let schema_id = schema_ifaces.schema.schema_id();
            for genesis in self.geneses.values() {
                if genesis.schema_id == schema_id {
                    list.push(genesis);
                }
            }
        }
        Ok(list.into_iter())""", 'D03', 0)
mut('d3-q3', M, """        schema_ifaces
            .iimpls
            .values()
            .find(|iimpl| C::IFACE_IDS.contains(&iimpl.iface_id))
            .or_else(|| {
                C::IFACE_IDS.iter().find_map(|id| {
                    let iface = self.iface(*id).ok()?;
                    iface.find_abstractable_impl(schema_ifaces)
                })
            })
            .ok_or_else(move || {
                ContractIfaceError::NoAbstractImpl(
                    C::IFACE_IDS[0],
                    schema_ifaces.schema.schema_id(),
                )
                .into()
            })""", """        for iimpl in schema_ifaces.iimpls.values() {
            if C::IFACE_IDS.contains(&iimpl.iface_id) {
                return Ok(iimpl);
            }
        }
        for id in C::IFACE_IDS {
            let Ok(iface) = self.iface(*id) else {
                continue;
            };
            if let Some(iimpl) = iface.find_abstractable_impl(schema_ifaces) {
                return Ok(iimpl);
            }
        }
        Err(ContractIfaceError::NoAbstractImpl(
            C::IFACE_IDS[0],
            schema_ifaces.schema.schema_id(),
        )
        .into())""", 'D03', 0)
mut('d3-q4', I, """            implements: schema_ifaces
                .iimpls
                .iter()
                .map(|(name, iimpl)| ImplInfo::with(name.clone(), iimpl))
                .collect(),
""", """            implements: {
                let mut list = Vec::with_capacity(schema_ifaces.iimpls.len());
                for (name, iimpl) in &schema_ifaces.iimpls {
                    list.push(ImplInfo::with(name.clone(), iimpl));
                }
                list
            },
""", 'D03', 0)
# strengthened
A = 'src/containers/anchors.rs'
mut('a-skip', A, '''                Dichotomy::double(tapret.bundle, opret.bundle)
            }
        }
        .into_iter()''', '''                Dichotomy::double(tapret.bundle, opret.bundle)
            }
        }
        .into_iter()
        .skip(1)''', 'A01')
mut('b-skip', 'src/containers/partials.rs', 'let mut iter = iter.into_iter();', 'let mut iter = iter.into_iter().skip(1);', 'B01')
mut('x-known', M, '                    known = true;\n', '                    known = false;\n', 'X02')
mut('x-known2', M, '                    known = true;\n                    opouts.extend(set.to_unconfined());', '                    opouts.extend(set.to_unconfined());\n                    known = known || opouts.len() > 1;', 'X02')
mut('m-ins', 'src/contract/merge_reveal.rs', 'if self.input_map.len() < self_transitions.len() {', 'if self.input_map.len() > self_transitions.len() {', 'M01')
mut('m-ins2', 'src/contract/merge_reveal.rs', """        if self.input_map.len() < self_transitions.len() {
            return Err(MergeRevealError::InsufficientInputs);
        }
""", '', 'M01')
mut('x-new', M, 'Ok(!present2)', 'Ok(present2)', 'X01')
mut('x-new2', M, """        let present = self.op_bundle_index.insert(opid, bundle_id)?.is_some();
        Ok(!present)""", """        let present = self.op_bundle_index.contains_key(&opid);
        if !present {
            self.op_bundle_index.insert(opid, bundle_id)?;
        }
        Ok(!present)""", 'X01', 0)
mut('e-contract', C, '            extensions: self.extensions,\n            attachments: self.attachments,\n            signatures: self.signatures,\n            scripts: self.scripts,\n        }\n    }\n\n    pub fn validate', '            extensions: self.extensions,\n            attachments: Default::default(),\n            signatures: self.signatures,\n            scripts: self.scripts,\n        }\n    }\n\n    pub fn validate', 'E02')
mut('e-contract2', C, '            transfer: false,\n            schema: self.schema,', '            transfer: self.transfer,\n            schema: self.schema,', 'E02')
mut('e-write', 'src/containers/file.rs', '        writer.write_all(&RGB_PREFIX)?;\n        writer.write_all(&Self::MAGIC)?;', '        writer.write(&RGB_PREFIX)?;\n        writer.write_all(&Self::MAGIC)?;', 'E02')
