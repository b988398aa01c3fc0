from mut import *
F = 'src/containers/suppl.rs'
mut('vs-get-default', F, "        let annotation = self.annotations.get(&sub)?.get(&item)?.get(&name.into())?;", "        let a = self.annotations.get(&sub)?;\n        let annotation = a.get(&item).or_else(|| a.get(&SupplItem::Default))?.get(&name.into())?;", 'N01', 1)
mut('vs-get-itself', F, """            .annotations
            .get(&sub)?
            .get(&SupplItem::Default)?""", """            .annotations
            .get(&SupplSub::Itself)?
            .get(&SupplItem::Default)?""", 'N01', 1)
mut('vs-annot-default', F, "self.annotate(sub, SupplItem::Default, name, data)", "self.annotate(SupplSub::Itself, SupplItem::Default, name, data)", 'N01', 1)
mut('vs-lose', F, """        let mut a = annotations
            .remove(&sub)
            .expect("zero items allowed")
            .unwrap_or_default();""", """        annotations.remove(&sub).expect("zero items allowed");
        let mut a = SupplMap::default();""", 'N01', 1)
mut('vs-lose2', F, """        let mut b = a
            .remove(&item)
            .expect("zero items allowed")
            .unwrap_or_default();""", """        a.remove(&item).expect("zero items allowed");
        let mut b = Annotations::default();""", 'N01', 1)
mut('vs-early', F, "        a.insert(item, b)?;\n", "        self.annotations.remove(&sub).expect(\"zero items allowed\");\n        a.insert(item, b)?;\n", 'N01', 1)
mut('vs-once', F, "        self.annotations = annotations;\n", "        if prev.is_none() {\n            self.annotations = annotations;\n        }\n", 'N01', 1)
mut('vs-clear', F, "        a.insert(item, b)?;\n", "        if a.len() > 100 {\n            a = SupplMap::default();\n        }\n        a.insert(item, b)?;\n", 'N01', 1)
mut('vs-velocity', F, "32..=63 => VelocityHint::Regular,\n            64", "32..=64 => VelocityHint::Regular,\n            65", 'N01', 1)
mut('vs-velocity2', F, "Regular = 63", "Regular = 61", 'N01', 1)
mut('vs-prev', F, "Ok(prev.is_some())", "Ok(prev.is_none())", 'N01', 1)
mut('vsq-read', F, """        let annotation = self
            .annotations
            .get(&sub)?
            .get(&SupplItem::Default)?
            .get(&name.into())?;
        Some(T::from_strict_serialized(annotation.clone()))
    }

    pub fn get<""", """        self.get(sub, SupplItem::Default, name)
    }

    pub fn get<""", 'N01', 0)
mut('vsq-read2', F, """        let annotation = self.annotations.get(&sub)?.get(&item)?.get(&name.into())?;
        Some(T::from_strict_serialized(annotation.clone()))""", """        self.annotations
            .get(&sub)
            .and_then(|map| map.get(&item))
            .and_then(|annotations| annotations.get(&name.into()))
            .map(|blob| T::from_strict_serialized(blob.clone()))""", 'N01', 0)
mut('vsq-opt', F, "self.get_default(sub, name).transpose().ok().flatten()", "match self.get_default(sub, name) {\n            Some(Ok(value)) => Some(value),\n            _ => None,\n        }", 'N01', 0)
mut('vsq-opt2', F, "self.get_default(sub, name).transpose().ok().flatten()", "self.get_default(sub, name)?.ok()", 'N01', 0)
mut('vsq-write', F, """        let mut a = annotations
            .remove(&sub)
            .expect("zero items allowed")
            .unwrap_or_default();
        let mut b = a
            .remove(&item)
            .expect("zero items allowed")
            .unwrap_or_default();
        let prev = b.insert(name.into(), data.to_strict_serialized()?)?;
        a.insert(item, b)?;
        annotations.insert(sub, a)?;
        self.annotations = annotations;
        Ok(prev.is_some())""", """        let blob = data.to_strict_serialized()?;
        let mut map = annotations.get(&sub).cloned().unwrap_or_default();
        let mut entries = match map.get(&item) {
            Some(entries) => entries.clone(),
            None => Annotations::default(),
        };
        let known = entries.insert(name.into(), blob)?.is_some();
        map.remove(&item).expect("zero items allowed");
        map.insert(item, entries)?;
        annotations.remove(&sub).expect("zero items allowed");
        annotations.insert(sub, map)?;
        self.annotations = annotations;
        Ok(known)""", 'N01', 0)
mut('vsq-helper', F, """        let mut b = a
            .remove(&item)
            .expect("zero items allowed")
            .unwrap_or_default();
        let prev = b.insert(name.into(), data.to_strict_serialized()?)?;
        a.insert(item, b)?;
        annotations.insert(sub, a)?;
        self.annotations = annotations;
        Ok(prev.is_some())
    }
""", """        let known = Self::put(&mut a, item, name.into(), data.to_strict_serialized()?)?;
        annotations.insert(sub, a)?;
        self.annotations = annotations;
        Ok(known)
    }

    fn put(
        map: &mut SupplMap,
        item: SupplItem,
        name: AnnotationName,
        blob: SmallBlob,
    ) -> Result<bool, SerializeError> {
        let mut entries = map
            .remove(&item)
            .expect("zero items allowed")
            .unwrap_or_default();
        let prev = entries.insert(name, blob)?;
        map.insert(item, entries)?;
        Ok(prev.is_some())
    }
""", 'N01', 0)
mut('vsq-velocity', F, """        match *value {
            0 => VelocityHint::Unspecified,
            1..=15 => VelocityHint::Seldom,
            16..=31 => VelocityHint::Episodic,
            32..=63 => VelocityHint::Regular,
            64..=127 => VelocityHint::Frequent,
            128..=255 => VelocityHint::HighFrequency,
        }""", """        let value = *value;
        if value == 0 {
            VelocityHint::Unspecified
        } else if value <= 15 {
            VelocityHint::Seldom
        } else if value < 32 {
            VelocityHint::Episodic
        } else if value <= 0x3f {
            VelocityHint::Regular
        } else if value > 127 {
            VelocityHint::HighFrequency
        } else {
            VelocityHint::Frequent
        }""", 'N01', 0)
mut('vsq-velocity2', F, "128..=255 =>", "_ =>", 'N01', 0)
