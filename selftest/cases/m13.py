from mut import *
T='src/persistence/stock.rs'; A='src/persistence/stash.rs'; I='src/interface/iface.rs'
def b(n,o,w,ids='D01',f=T,cnt=1): mut(n,f,o,w,ids,1,cnt)
def q(n,o,w,ids='D01',f=T,cnt=1): mut(n,f,o,w,ids,0,cnt)
b('d-norights',"for item in state.rights_all() {","for item in state.rights_all().take(0) {")
b('d-skip',"let outputs: BTreeSet<XOutpoint> = outpoints.into_iter().map(|o| o.into()).collect();","let outputs: BTreeSet<XOutpoint> = outpoints.into_iter().skip(1).map(|o| o.into()).collect();")
b('d-ins',"                res.entry(item.seal)\n                    .or_default()\n                    .insert(item.opout, PersistedState::Void);","                res.insert(item.seal, HashMap::from([(item.opout, PersistedState::Void)]));")
b('d-all',"        for item in state.data_all() {\n            let outpoint = item.seal.into();\n            if outputs.contains::<XOutpoint>(&outpoint) {","        for item in state.data_all() {\n            let outpoint = item.seal.into();\n            if outputs.contains::<XOutpoint>(&outpoint) || outputs.is_empty() {")
b('d-blind',"                        item.state.blinding,\n                        item.state.tag,","                        BlindingFactor::random(),\n                        item.state.tag,")
b('d-empty',"        let state = self.contract_state(contract_id)?;\n\n        let mut res =","        let state = self.contract_state(contract_id)?;\n        if outputs.len() > 255 { return Ok(empty!()) }\n\n        let mut res =")
b('d-first',"            let outpoint = item.seal.into();\n            if outputs.contains::<XOutpoint>(&outpoint) {\n                res.entry(item.seal).or_default().insert(\n                    item.opout,\n                    PersistedState::Amount(","            let outpoint = item.seal.into();\n            if outputs.contains::<XOutpoint>(&outpoint) && !res.contains_key(&item.seal) {\n                res.entry(item.seal).or_default().insert(\n                    item.opout,\n                    PersistedState::Amount(")
b('d-assigning',".map(|o| o.into())\n            .collect::<BTreeSet<_>>();\n        Ok(self.index.contracts_assigning(outputs)?)",".map(|o| o.into())\n            .take(1)\n            .collect::<BTreeSet<_>>();\n        Ok(self.index.contracts_assigning(outputs)?)")
q('dq-cont',"            let outpoint = item.seal.into();\n            if outputs.contains::<XOutpoint>(&outpoint) {\n                res.entry(item.seal)\n                    .or_default()\n                    .insert(item.opout, PersistedState::Void);\n            }","            if !outputs.contains(&XOutpoint::from(item.seal)) {\n                continue;\n            }\n            let state = PersistedState::Void;\n            res.entry(item.seal).or_default().insert(item.opout, state);")
q('dq-filter',"        for item in state.data_all() {\n            let outpoint = item.seal.into();\n            if outputs.contains::<XOutpoint>(&outpoint) {\n                res.entry(item.seal).or_default().insert(\n                    item.opout,\n                    PersistedState::Data(item.state.value.clone(), item.state.salt),\n                );\n            }\n        }","        state\n            .data_all()\n            .filter(|item| outputs.contains::<XOutpoint>(&item.seal.into()))\n            .for_each(|item| {\n                let value = PersistedState::Data(item.state.value.clone(), item.state.salt);\n                res.entry(item.seal).or_insert_with(HashMap::new).insert(item.opout, value);\n            });")
q('dq-helper',"        let mut res =\n            HashMap::<XOutputSeal, HashMap<Opout, PersistedState>>::with_capacity(outputs.len());\n","        let mut res =\n            HashMap::<XOutputSeal, HashMap<Opout, PersistedState>>::with_capacity(outputs.len());\n        fn put(res: &mut HashMap<XOutputSeal, HashMap<Opout, PersistedState>>, seal: XOutputSeal, opout: Opout, state: PersistedState) {\n            res.entry(seal).or_default().insert(opout, state);\n        }\n") if False else None
q('dq-match',"                res.entry(item.seal)\n                    .or_default()\n                    .insert(item.opout, PersistedState::Void);","                match res.get_mut(&item.seal) {\n                    Some(map) => {\n                        map.insert(item.opout, PersistedState::Void);\n                    }\n                    None => {\n                        let mut map = HashMap::new();\n                        map.insert(item.opout, PersistedState::Void);\n                        res.insert(item.seal, map);\n                    }\n                }")
q('dq-loop',"let outputs: BTreeSet<XOutpoint> = outpoints.into_iter().map(|o| o.into()).collect();","let mut outputs = BTreeSet::<XOutpoint>::new();\n        for outpoint in outpoints {\n            outputs.insert(outpoint.into());\n        }")
D='D02'
b('e-notags',"        for (assignment_type, asset_tag) in genesis.asset_tags.iter() {","        for (assignment_type, asset_tag) in genesis.asset_tags.iter().skip(1) {",D,A,2)
b('e-droptag',"            builder = builder\n                .add_asset_tag_raw(*assignment_type, *asset_tag)\n                .expect(\"tags are in bset and must not repeat\");","            let _ = builder\n                .clone()\n                .add_asset_tag_raw(*assignment_type, *asset_tag)\n                .expect(\"tags are in bset and must not repeat\");",D,A,2)
b('e-dftiface',"                default_iface.clone(),","                iface.clone(),",D,A)
b('e-types',"self.extract(&schema_ifaces.schema, [iface])?;\n        let builder = ContractBuilder","self.extract(&schema_ifaces.schema, [])?;\n        let builder = ContractBuilder",D,A) if False else None
b('e-anyimpl',"        let mut builder = if let Some(iimpl) = schema_ifaces.get(iface.iface_id()) {","        let mut builder = if let Some(iimpl) = schema_ifaces.iimpls.values().next() {",D,A)
b('e-get',"self.iimpls.values().find(|iimpl| iimpl.iface_id == id)","self.iimpls.values().find(|iimpl| iimpl.iface_id != id)",D,A)
b('e-kit1',"        kit.types = types;\n","        let _ = types;\n",D)
b('e-kit2',"        for name in schema_ifaces.iimpls.keys() {","        for name in schema_ifaces.iimpls.keys().skip(1) {",D)
b('e-kit3',"            .extend(schema_ifaces.iimpls.values().cloned())","            .extend(schema_ifaces.iimpls.values().take(1).cloned())",D)
b('e-libs',"                    .types()\n                    .chain(ifaces.into_iter().flat_map(Iface::types)),","                    .types(),",D,A) if False else None
b('e-rev',"                .find_map(move |parent| schema_ifaces.get(*parent))","                .take(1)\n                .find_map(move |parent| schema_ifaces.get(*parent))",D,I)
q('eq-loop',"            builder = builder\n                .add_asset_tag_raw(*assignment_type, *asset_tag)\n                .expect(\"tags are in bset and must not repeat\");","            let tagged = builder.add_asset_tag_raw(*assignment_type, *asset_tag);\n            builder = tagged.expect(\"tags are in bset and must not repeat\");",D,A,2)
q('eq-match',"        let mut builder = if let Some(iimpl) = schema_ifaces.get(iface.iface_id()) {\n            TransitionBuilder::blank_transition(\n                contract_id,\n                iface.clone(),\n                schema.clone(),\n                iimpl.clone(),\n                types,\n            )\n        } else {\n            let (default_iface_name, default_iimpl) =\n                schema_ifaces.iimpls.first_key_value().unwrap();\n            let default_iface = self.iface(default_iface_name.clone())?;\n\n            TransitionBuilder::blank_transition(\n                contract_id,\n                default_iface.clone(),\n                schema.clone(),\n                default_iimpl.clone(),\n                types,\n            )\n        };","        let (iface, iimpl) = match schema_ifaces.get(iface.iface_id()) {\n            Some(iimpl) => (iface, iimpl),\n            None => {\n                let (name, iimpl) = schema_ifaces.iimpls.first_key_value().unwrap();\n                (self.iface(name.clone())?, iimpl)\n            }\n        };\n        let mut builder = TransitionBuilder::blank_transition(\n            contract_id,\n            iface.clone(),\n            schema.clone(),\n            iimpl.clone(),\n            types,\n        );",D,A)
q('eq-tags',"        for (assignment_type, asset_tag) in genesis.asset_tags.iter() {\n            builder = builder\n                .add_asset_tag_raw(*assignment_type, *asset_tag)\n                .expect(\"tags are in bset and must not repeat\");\n        }\n\n        Ok(builder)","        Ok(genesis.asset_tags.iter().fold(builder, |builder, (ty, tag)| {\n            builder\n                .add_asset_tag_raw(*ty, *tag)\n                .expect(\"tags are in bset and must not repeat\")\n        }))",D,A,2)
q('eq-kit',"        kit.iimpls\n            .extend(schema_ifaces.iimpls.values().cloned())\n            .expect(\"type guarantees\");","        for iimpl in schema_ifaces.iimpls.values() {\n            kit.iimpls.push(iimpl.clone()).expect(\"type guarantees\");\n        }",D)
q('eq-find',"        schema_ifaces.get(self.iface_id()).or_else(|| {\n            self.inherits\n                .iter()\n                .rev()\n                .find_map(move |parent| schema_ifaces.get(*parent))\n        })","        if let Some(iimpl) = schema_ifaces.get(self.iface_id()) {\n            return Some(iimpl);\n        }\n        for parent in self.inherits.iter().rev() {\n            if let Some(iimpl) = schema_ifaces.get(*parent) {\n                return Some(iimpl);\n            }\n        }\n        None",D,I)
q('eq-get',"self.iimpls.values().find(|iimpl| iimpl.iface_id == id)","self.iimpls.iter().map(|(_, iimpl)| iimpl).find(|iimpl| id == iimpl.iface_id)",D,A)
