from mut import *
M = 'src/persistence/memory.rs'
T = 'src/persistence/stash.rs'

# ---- K01: the same storage in other forms
mut('k1-q-early', M, '''        if !self.schemata.contains_key(&schema_id) {
            self.schemata.insert(schema_id, SchemaIfaces::new(schema))?;
            return Ok(true);
        }
        Ok(false)
''', '''        if self.schemata.contains_key(&schema_id) {
            return Ok(false);
        }
        let schema_ifaces = SchemaIfaces::new(schema);
        self.schemata.insert(schema_id, schema_ifaces)?;
        Ok(true)
''', 'K01', 0)
mut('k1-q-get', M, '''        if !self.ifaces.contains_key(&iface_id) {
            self.ifaces.insert(iface_id, iface)?;
            return Ok(true);
        }
        Ok(false)
''', '''        match self.ifaces.get(&iface_id) {
            Some(_) => Ok(false),
            None => {
                self.ifaces.insert(iface_id, iface)?;
                Ok(true)
            }
        }
''', 'K01', 0)
mut('k1-q-some', M, '''        let contract_id = genesis.contract_id();
        let present = self.geneses.insert(contract_id, genesis)?.is_some();
        Ok(!present)
''', '''        let prev = self.geneses.insert(genesis.contract_id(), genesis)?;
        Ok(prev.is_none())
''', 'K01', 0)
mut('k1-q-contains', M, '''        let opid = extension.id();
        let present = self.extensions.insert(opid, extension)?.is_some();
        Ok(!present)
''', '''        let opid = extension.id();
        let new = !self.extensions.contains_key(&opid);
        self.extensions.insert(opid, extension)?;
        Ok(new)
''', 'K01', 0)
mut('k1-q-suppl', M, '''        match self.suppl.get_mut(&suppl.content_id) {
            None => {
                self.suppl.insert(suppl.content_id, tiny_bset![suppl])?;
            }
            Some(suppls) => suppls.push(suppl)?,
        }
        Ok(())
''', '''        if let Some(suppls) = self.suppl.get_mut(&suppl.content_id) {
            suppls.push(suppl)?;
            return Ok(());
        }
        let content_id = suppl.content_id;
        self.suppl.insert(content_id, tiny_bset![suppl])?;
        Ok(())
''', 'K01', 0)
mut('k1-q-iimpl', M, '''        let present = schema_ifaces.iimpls.contains_key(&iface_name);
        schema_ifaces.iimpls.insert(iface_name, iimpl)?;
        Ok(!present)
''', '''        let prev = schema_ifaces.iimpls.insert(iface_name, iimpl)?;
        Ok(prev.is_none())
''', 'K01', 0)
mut('k1-q-match', M, '''        self.libs
            .get(&id)
            .ok_or_else(|| StashInconsistency::LibAbsent(id).into())
''', '''        match self.libs.get(&id) {
            Some(lib) => Ok(lib),
            None => Err(StashInconsistency::LibAbsent(id).into()),
        }
''', 'K01', 0)
mut('k1-q-iface', M, '''        let iref = iface.into();
        match iref {
            IfaceRef::Name(ref name) => self.ifaces.values().find(|iface| &iface.name == name),
            IfaceRef::Id(ref id) => self.ifaces.get(id),
        }
        .ok_or_else(|| StashInconsistency::IfaceAbsent(iref).into())
''', '''        let iref = iface.into();
        let found = match &iref {
            IfaceRef::Id(id) => self.ifaces.get(id),
            IfaceRef::Name(name) => {
                let mut found = None;
                for iface in self.ifaces.values() {
                    if iface.name == *name {
                        found = Some(iface);
                        break;
                    }
                }
                found
            }
        };
        found.ok_or_else(|| StashInconsistency::IfaceAbsent(iref).into())
''', 'K01', 0)
mut('k1-q-trust', M, '''        Ok(self.identities.get(identity).copied().unwrap_or_default())
''', '''        Ok(match self.identities.get(identity) {
            Some(level) => *level,
            None => TrustLevel::default(),
        })
''', 'K01 K02', 0)
mut('k1-q-ids', M, '''        Ok(self.witnesses.keys().copied())
''', '''        Ok(self.witnesses.iter().map(|(id, _)| *id))
''', 'K01', 0)
mut('k1-q-geneses', M, '''        Ok(self.geneses.values())
''', '''        Ok(self.geneses.iter().map(|(_, genesis)| genesis))
''', 'K01', 0)
mut('k1-q-suppls', M, '''        Ok(self
            .suppl
            .get(&content_ref)
            .cloned()
            .unwrap_or_default()
            .into_iter())
''', '''        Ok(self
            .suppl
            .get(&content_ref)
            .into_iter()
            .flat_map(|suppls| suppls.iter().cloned()))
''', 'K01', 0)
mut('k1-q-by', M, '''        Ok(self.schemata_by::<C>()?.flat_map(|schema_ifaces| {
            self.geneses
                .values()
                .filter(|genesis| schema_ifaces.schema.schema_id() == genesis.schema_id)
        }))
''', '''        Ok(self.schemata_by::<C>()?.flat_map(|schema_ifaces| {
            let schema_id = schema_ifaces.schema.schema_id();
            self.geneses
                .values()
                .filter(move |genesis| genesis.schema_id == schema_id)
        }))
''', 'K01', 0)
mut('k1-q-first', M, '''        Ok(self.suppl.get(&content_ref).and_then(|s| s.first()))
''', '''        match self.suppl.get(&content_ref) {
            Some(suppls) => Ok(suppls.first()),
            None => Ok(None),
        }
''', 'K01', 0)

# ---- K03: the same import in other forms
mut('k3-q-try', T, '''        for schema in kit.schemata {
            self.provider
                .replace_schema(schema)
                .map_err(StashError::WriteProvider)?;
        }
''', '''        kit.schemata.into_iter().try_for_each(|schema| {
            self.provider
                .replace_schema(schema)
                .map(|_| ())
                .map_err(StashError::WriteProvider)
        })?;
''', 'K03', 0)
mut('k3-q-order', T, '''        for schema in kit.schemata {
            self.provider
                .replace_schema(schema)
                .map_err(StashError::WriteProvider)?;
        }
        for iface in kit.ifaces {
            self.provider
                .replace_iface(iface)
                .map_err(StashError::WriteProvider)?;
        }
''', '''        for iface in kit.ifaces {
            self.provider
                .replace_iface(iface)
                .map_err(StashError::WriteProvider)?;
        }
        for schema in kit.schemata {
            self.provider
                .replace_schema(schema)
                .map_err(StashError::WriteProvider)?;
        }
''', 'K03', 0)
mut('k3-q-iflet', T, '''        let genesis = match self.genesis(contract_id) {
            Ok(g) => g.clone().merge_reveal(consignment.genesis)?,
            Err(_) => consignment.genesis,
        };
''', '''        let genesis = if let Ok(known) = self.genesis(contract_id) {
            let known = known.clone();
            known.merge_reveal(consignment.genesis)?
        } else {
            consignment.genesis
        };
''', 'K03', 0)
mut('k3-q-unzip', T, '''        let (ifaces, iimpls): (BTreeSet<_>, BTreeSet<_>) = consignment
            .ifaces
            .release()
            .into_iter()
            .fold((bset!(), bset!()), |(mut keys, mut values), (k, v)| {
                keys.insert(k);
                values.insert(v);
                (keys, values)
            });
''', '''        let (ifaces, iimpls): (BTreeSet<_>, BTreeSet<_>) =
            consignment.ifaces.release().into_iter().unzip();
''', 'K03', 0)
mut('k3-q-loop', T, '''        let (ifaces, iimpls): (BTreeSet<_>, BTreeSet<_>) = consignment
            .ifaces
            .release()
            .into_iter()
            .fold((bset!(), bset!()), |(mut keys, mut values), (k, v)| {
                keys.insert(k);
                values.insert(v);
                (keys, values)
            });
''', '''        let mut ifaces = BTreeSet::new();
        let mut iimpls = BTreeSet::new();
        for (iface, iimpl) in consignment.ifaces.release() {
            ifaces.insert(iface);
            iimpls.insert(iimpl);
        }
''', 'K03', 0)
mut('k3-q-helper', [(T, '''            let opid = extension.id();
            let extension = match self.provider.extension(opid) {
                Ok(e) => e.clone().merge_reveal(extension)?,
                Err(_) => extension,
            };
            self.provider
                .replace_extension(extension)
                .map_err(StashError::WriteProvider)?;
        }
''', '''            self.consume_extension(extension)?;
        }
'''), (T, '''    fn consume_witness_bundle(
''', '''    fn consume_extension(&mut self, extension: Extension) -> Result<bool, StashError<P>> {
        let merged = match self.provider.extension(extension.id()).cloned() {
            Ok(known) => known.merge_reveal(extension)?,
            Err(_) => extension,
        };
        self.provider
            .replace_extension(merged)
            .map_err(StashError::WriteProvider)
    }

    fn consume_witness_bundle(
''')], '', '', 'K03', 0)
mut('k3-q-proto', T, '''        for (anchor, bundle) in anchored_bundles.into_iter() {
            let bundle_id = bundle.bundle_id();
            self.consume_bundle(bundle)?;

            let proto = mpc::ProtocolId::from_byte_array(contract_id.to_byte_array());
            let msg = mpc::Message::from_byte_array(bundle_id.to_byte_array());
            let merkle_block = MerkleBlock::with(&anchor.mpc_proof, proto, msg)?;
            anchors.push(Anchor::new(merkle_block, anchor.dbc_proof));
        }
''', '''        let proto = mpc::ProtocolId::from_byte_array(contract_id.to_byte_array());
        for (anchor, bundle) in anchored_bundles.into_iter() {
            let msg = mpc::Message::from_byte_array(bundle.bundle_id().to_byte_array());
            let merkle_block = MerkleBlock::with(&anchor.mpc_proof, proto, msg)?;
            self.consume_bundle(bundle)?;
            anchors.push(Anchor::new(merkle_block, anchor.dbc_proof));
        }
''', 'K03', 0)
mut('k3-q-witness', T, '''            Ok(mut w) => {
                w.public = w.public.clone().merge_reveal(witness.public)?;
                w.anchors = w.anchors.clone().merge_reveal(witness.anchors)?;
                w
            }
''', '''            Ok(known) => SealWitness {
                public: known.public.merge_reveal(witness.public)?,
                anchors: known.anchors.merge_reveal(witness.anchors)?,
            },
''', 'K03', 0)
mut('k3-q-sigs', T, '''            self.provider.import_sigs(content_id, sigs).ok();
''', '''            let _ = self.provider.import_sigs(content_id, sigs);
''', 'K03', 0)
mut('k3-q-seal', T, '''        self.begin_transaction()?;
        let seal = self
            .provider
            .add_secret_seal(seal)
            .inspect_err(|_| self.rollback_transaction())
            .map_err(StashError::WriteProvider)?;
        self.commit_transaction()?;
        Ok(seal)
''', '''        self.begin_transaction()?;
        match self.provider.add_secret_seal(seal) {
            Ok(new) => {
                self.commit_transaction()?;
                Ok(new)
            }
            Err(err) => {
                self.rollback_transaction();
                Err(StashError::WriteProvider(err))
            }
        }
''', 'K03 P02', 0)
mut('k3-b-clash', T, '''        for (id, attach) in consignment.attachments {
            self.provider
                .replace_attachment(id, attach)
                .map_err(StashError::WriteProvider)?;
        }
''', '''        for (id, attach) in consignment.attachments {
            if self.provider.replace_attachment(id, attach).is_err() {
                break;
            }
        }
''', 'K03', 1)
mut('k3-b-skip1', T, '''        for suppl in kit.supplements {
''', '''        for suppl in kit.supplements.into_iter().take(8) {
''', 'K03', 1)
