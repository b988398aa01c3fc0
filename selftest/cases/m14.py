from mut import *
C = 'src/containers/consignment.rs'
K = 'src/containers/kit.rs'
F = 'src/containers/file.rs'
# ids
mut('id-ext', C, """        e.commit_to_set(&LargeOrdSet::from_iter_checked(
            self.extensions.iter().map(Extension::disclose_hash),
        ));
""", '', 'E01')
mut('id-term', C, '        e.commit_to_map(&self.terminals);\n', '', 'E01')
mut('id-transfer', C, '        e.commit_to_serialized(&self.transfer);\n', '        e.commit_to_serialized(&TRANSFER);\n', 'E01')
mut('id-first', C, 'self.bundles.iter().map(WitnessBundle::commit_id)', 'self.bundles.iter().take(1).map(WitnessBundle::commit_id)', 'E01')
mut('id-att', C, 'self.attachments.keys().copied()', 'self.attachments.keys().copied().take(1)', 'E01')
mut('id-sigs', C, '        e.commit_to_map(&self.signatures);\n', '        if self.transfer {\n            e.commit_to_map(&self.signatures);\n        }\n', 'E01')
mut('id-kit', K, 'self.iimpls.iter().map(|iimpl| iimpl.impl_id())', 'self.ifaces.iter().map(|iimpl| iimpl.iface_id())', 'E01')
mut('id-loop', C, """        e.commit_to_set(&TinyOrdSet::from_iter_checked(
            self.supplements.iter().map(|suppl| suppl.suppl_id()),
        ));
""", """        let mut ids = TinyOrdSet::new();
        for suppl in &self.supplements {
            ids.push(suppl.suppl_id()).expect("same size");
        }
        e.commit_to_set(&ids);
""", 'E01', 0)
mut('id-helper', K, """        e.commit_to_serialized(&self.types.id());
        e.commit_to_set(&SmallOrdSet::from_iter_checked(self.scripts.iter().map(|lib| lib.id())));
""", """        fn code(kit: &Kit, e: &mut CommitEngine) {
            let libs = kit.scripts.iter().map(Lib::id);
            e.commit_to_serialized(&kit.types.id());
            e.commit_to_set(&SmallOrdSet::from_iter_checked(libs));
        }
        code(self, e);
""", 'E01', 0)
mut('id-ids', C, """        e.commit_to_serialized(&self.contract_id());
        e.commit_to_serialized(&self.genesis.disclose_hash());
""", """        let (contract_id, genesis) = (self.genesis.contract_id(), &self.genesis);
        e.commit_to_serialized(&contract_id);
        e.commit_to_serialized(&genesis.disclose_hash());
""", 'E01', 0)
# files
mut('f-nopre', F, 'if rgb != RGB_PREFIX || magic != Self::MAGIC {', 'if rgb != RGB_PREFIX && magic != Self::MAGIC {', 'E02')
mut('f-nomagic', F, 'if rgb != RGB_PREFIX || magic != Self::MAGIC {', 'if rgb != RGB_PREFIX {', 'E02')
mut('f-same', F, 'const MAGIC: [u8; MAGIC_LEN] = *b"CON";', 'const MAGIC: [u8; MAGIC_LEN] = *b"TFR";', 'E02')
mut('f-swap', F, 'UniversalFile::Contract(_) => Contract::MAGIC,', 'UniversalFile::Contract(_) => Transfer::MAGIC,', 'E02')
mut('f-swapl', F, 'x if x == Contract::MAGIC => Contract::strict_read(&mut reader)?.into(),', 'x if x == Contract::MAGIC => Transfer::strict_read(&mut reader)?.into(),', 'E02')
mut('f-order', F, """        writer.write_all(&RGB_PREFIX)?;
        writer.write_all(&Self::MAGIC)?;
""", """        writer.write_all(&Self::MAGIC)?;
        writer.write_all(&RGB_PREFIX)?;
""", 'E02')
mut('f-path', F, 'std::fs::write(path, self.to_ascii_armored_string())', 'std::fs::write(path, self.to_ascii_armored_string()).or(Ok(()))', 'E02')
mut('f-type', C, 'if consignment.transfer != TRANSFER {', 'if consignment.transfer && !TRANSFER {', 'E02')
mut('f-type2', C, 'if self.transfer { s!("transfer") } else { s!("contract") }', 'if TRANSFER { s!("transfer") } else { s!("contract") }', 'E02')
mut('f-type3', C, 'if self.transfer { s!("transfer") } else { s!("contract") }', 'if !self.transfer { s!("transfer") } else { s!("contract") }', 'E02')
mut('f-hdr', C, 'if !self.terminals.is_empty() {', 'if self.terminals.is_empty() {', 'E02')
mut('f-kh', K, 'format!("{:-}", iimpl.schema_id)', 'format!("{:-}", iimpl.iface_id)', 'E02')
mut('f-ok', F, 'if rgb != RGB_PREFIX || magic != Self::MAGIC {\n            return Err(LoadError::InvalidMagic);\n        }', 'let known = rgb == RGB_PREFIX && magic == Self::MAGIC;\n        if !known {\n            return Err(LoadError::InvalidMagic);\n        }', 'E02', 0)
mut('f-match', F, """            x if x == Kit::MAGIC => Kit::strict_read(&mut reader)?.into(),
            x if x == Contract::MAGIC => Contract::strict_read(&mut reader)?.into(),
            x if x == Transfer::MAGIC => Transfer::strict_read(&mut reader)?.into(),
""", """            Kit::MAGIC => UniversalFile::Kit(Kit::strict_read(&mut reader)?),
            Contract::MAGIC => UniversalFile::Contract(Contract::strict_read(&mut reader)?),
            Transfer::MAGIC => UniversalFile::Transfer(Transfer::strict_read(&mut reader)?),
""", 'E02', 0)
mut('f-if', F, """        Ok(match magic {
            x if x == Kit::MAGIC => Kit::strict_read(&mut reader)?.into(),
            x if x == Contract::MAGIC => Contract::strict_read(&mut reader)?.into(),
            x if x == Transfer::MAGIC => Transfer::strict_read(&mut reader)?.into(),
            _ => return Err(LoadError::InvalidMagic),
        })
""", """        if magic == Kit::MAGIC {
            return Ok(Kit::strict_read(&mut reader)?.into());
        }
        if magic == Contract::MAGIC {
            return Ok(Contract::strict_read(&mut reader)?.into());
        }
        if magic == Transfer::MAGIC {
            return Ok(Transfer::strict_read(&mut reader)?.into());
        }
        Err(LoadError::InvalidMagic)
""", 'E02', 0)
mut('f-save', [(F, """        let magic = match self {
            UniversalFile::Kit(_) => Kit::MAGIC,
            UniversalFile::Contract(_) => Contract::MAGIC,
            UniversalFile::Transfer(_) => Transfer::MAGIC,
        };
""", """        let magic = self.magic();
"""), (F, "    pub fn save(&self, mut writer: impl Write) -> Result<(), io::Error> {\n        writer.write_all(&RGB_PREFIX)?;\n        let magic", """    fn magic(&self) -> [u8; MAGIC_LEN] {
        match self {
            UniversalFile::Kit(_) => Kit::MAGIC,
            UniversalFile::Contract(_) => Contract::MAGIC,
            UniversalFile::Transfer(_) => Transfer::MAGIC,
        }
    }

    pub fn save(&self, mut writer: impl Write) -> Result<(), io::Error> {
        writer.write_all(&RGB_PREFIX)?;
        let magic""")], None, None, 'E02', 0)
mut('f-head', F, """        writer.write_all(&RGB_PREFIX)?;
        writer.write_all(&Self::MAGIC)?;
""", """        for part in [&RGB_PREFIX[..], &Self::MAGIC[..]] {
            writer.write_all(part)?;
        }
""", 'E02', 0)
# kits reach the stash
mut('k-import', 'src/persistence/stock.rs', '        self.stash.consume_kit(kit)?;\n', '        let _ = kit;\n', 'K03')
# warnings
mut('w-iface', C, 'if iface.iface_id() != iimpl.iface_id {', 'if iface.iface_id() == iimpl.iface_id {', 'V01')
mut('w-term', C, 'if !index.bundle_ids().any(|id| id == *bundle_id) {', 'if index.bundle_ids().any(|id| id == *bundle_id) {', 'V01')
mut('w-type', C, '        if self.transfer != TRANSFER {\n            status', '        if self.transfer && !TRANSFER {\n            status', 'V01')
mut('w-set', C, """            if !index.bundle_ids().any(|id| id == *bundle_id) {
""", """            let found = index.bundle_ids().find(|id| id == bundle_id);
            if found.is_none() {
""", 'V01', 0)
