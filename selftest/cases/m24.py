from mut import *
M = 'src/persistence/memory.rs'
F = 'src/persistence/fs.rs'
P = 'P03'
mut('u-skip', M, "    terminal_index: MediumOrdMap", "    #[strict_type(skip)]\n    terminal_index: MediumOrdMap", P)
mut('u-skip2', M, "    suppl: TinyOrdMap<ContentRef, TinyOrdSet<Supplement>>,\n", "    #[strict_type(skip)]\n    suppl: TinyOrdMap<ContentRef, TinyOrdSet<Supplement>>,\n", P)
mut('u-clone', M, "            suppl: self.suppl.clone(),", "            suppl: empty!(),", P)
mut('u-clone2', M, "            secret_seals: self.secret_seals.clone(),", "            secret_seals: MediumOrdSet::new(),", P)
mut('u-file', F, 'index.push("index.dat");', 'index.push("state.dat");', P)
mut('u-load', F, "strict_deserialize_from_file::<U32MAX>(&self.index)", "strict_deserialize_from_file::<U32MAX>(&self.state)", P)
mut('u-store', F, ".strict_serialize_to_file::<U32MAX>(&self.state)", ".strict_serialize_to_file::<U32MAX>(&self.stash)", P)
mut('u-lost', F, """            .strict_serialize_to_file::<U32MAX>(&self.index)
            .map_err(PersistenceError::with)""", """            .strict_serialize_to_file::<U32MAX>(&self.index)
            .ok();
        Ok(())""", P)
mut('u-exists', F, """        object
            .strict_serialize_to_file::<U32MAX>(&self.index)""", """        if self.index.exists() {
            return Ok(());
        }
        object
            .strict_serialize_to_file::<U32MAX>(&self.index)""", P)
mut('u-suppl', 'src/containers/suppl.rs', "    pub annotations: TinyOrdMap<SupplSub, SupplMap>,", "    #[strict_type(skip)]\n    pub annotations: TinyOrdMap<SupplSub, SupplMap>,", P)
mut('u-link', M, "fn persistence_mut(&mut self) -> Option<&mut Persistence<Self>> { self.persistence.as_mut() }", "fn persistence_mut(&mut self) -> Option<&mut Persistence<Self>> { None }", P)
mut('uq-join', F, """        let mut stash = path.clone();
        stash.push("stash.dat");
        let mut state = path.clone();
        state.push("state.dat");
        let mut index = path.clone();
        index.push("index.dat");

        Ok(Self {
            stash,
            state,
            index,
        })""", """        Ok(Self {
            stash: path.join("stash.dat"),
            state: path.join("state.dat"),
            index: path.join("index.dat"),
        })""", P, 0)
mut('uq-file', F, """        let mut stash = path.clone();
        stash.push("stash.dat");
        let mut state = path.clone();
        state.push("state.dat");
        let mut index = path.clone();
        index.push("index.dat");
""", """        let file = |name: &str| {
            let mut file = path.clone();
            file.push(name);
            file
        };
        let stash = file("stash.dat");
        let state = file("state.dat");
        let index = file("index.dat");
""", P, 0)
mut('uq-match', F, """        object
            .strict_serialize_to_file::<U32MAX>(&self.index)
            .map_err(PersistenceError::with)""", """        match object.strict_serialize_to_file::<U32MAX>(&self.index) {
            Ok(()) => Ok(()),
            Err(err) => Err(PersistenceError::with(err)),
        }""", P, 0)
mut('uq-try', F, """        object
            .strict_serialize_to_file::<U32MAX>(&self.index)
            .map_err(PersistenceError::with)""", """        object
            .strict_serialize_to_file::<U32MAX>(&self.index)
            .map_err(PersistenceError::with)?;
        Ok(())""", P, 0)
mut('uq-helper', [(F, """        object
            .strict_serialize_to_file::<U32MAX>(&self.index)
            .map_err(PersistenceError::with)""", """        save(object, &self.index)"""), (F, "impl PersistenceProvider<MemStash> for", """fn save<T: StrictSerialize>(object: &T, path: &PathBuf) -> Result<(), PersistenceError> {
    object
        .strict_serialize_to_file::<U32MAX>(path)
        .map_err(PersistenceError::with)
}

impl PersistenceProvider<MemStash> for""")], None, None, P, 0)
mut('uq-link', M, "fn persistence_mut(&mut self) -> Option<&mut Persistence<Self>> { self.persistence.as_mut() }", "fn persistence_mut(&mut self) -> Option<&mut Persistence<Self>> {\n        match &mut self.persistence {\n            Some(link) => Some(link),\n            None => None,\n        }\n    }", P, 0)
I = 'src/interface/inheritance.rs'
mut('u-inh-skip', I, "        for ext in iter {\n", "        for ext in iter.skip(1) {\n", 'I04')
mut('u-inh-first', I, "            iface = iface.extended(ext, name.clone()).map_err(|err| {", "            iface = iface.clone().extended(ext, name.clone()).or_else(|err| if err.len() > 1 { Err(err) } else { Ok(iface) }).map_err(|err| {", 'I04')
mut('u-inh-name', I, "            iface = iface.extended(ext, name.clone()).map_err(|err| {", "            iface = iface.extended(ext, ext_name.clone()).map_err(|err| {", 'I04')
mut('uq-inh-fold', I, """        let mut iface = iter
            .next()
            .expect("at least one interface must be provided for the inheritance");
        for ext in iter {
            let ext_name = ext.name.clone();
            iface = iface.extended(ext, name.clone()).map_err(|err| {
                err.into_iter()
                    .map(|e| InheritError {
                        err: e,
                        iface: ext_name.clone(),
                    })
                    .collect::<Vec<_>>()
            })?;
        }
        Ok(iface)
""", """        let iface = iter
            .next()
            .expect("at least one interface must be provided for the inheritance");
        iter.try_fold(iface, |iface, ext| {
            let ext_name = ext.name.clone();
            iface.extended(ext, name.clone()).map_err(|err| {
                err.into_iter()
                    .map(|e| InheritError {
                        err: e,
                        iface: ext_name.clone(),
                    })
                    .collect::<Vec<_>>()
            })
        })
""", 'I04', 0)
mut('uq-inh-match', I, """            iface = iface.extended(ext, name.clone()).map_err(|err| {
                err.into_iter()
                    .map(|e| InheritError {
                        err: e,
                        iface: ext_name.clone(),
                    })
                    .collect::<Vec<_>>()
            })?;
""", """            iface = match iface.extended(ext, name.clone()) {
                Ok(iface) => iface,
                Err(errors) => {
                    let mut res = Vec::new();
                    for err in errors {
                        res.push(InheritError { err, iface: ext_name.clone() });
                    }
                    return Err(res);
                }
            };
""", 'I04', 0)
