from mut import *
F='src/interface/builder.rs'
def b(n,o,w,ids,cnt=1): mut(n,F,o,w,ids,1,cnt)
def q(n,o,w,ids='B02 B03',cnt=1): mut(n,F,o,w,ids,0,cnt)
b('data-kind',"if let OwnedStateSchema::Structured(_) = *state_schema {","if !matches!(*state_schema, OwnedStateSchema::Declarative) {",'B02')
b('fung-nokind',"if *state_schema != OwnedStateSchema::Fungible(FungibleType::Unsigned64Bit) {\n            return","if *state_schema == OwnedStateSchema::Declarative {\n            return",'B02')
b('rights-nokind',"if *state_schema != OwnedStateSchema::Declarative {","if matches!(state_schema, OwnedStateSchema::Fungible(_)) {",'B02')
b('rights-drop',"                assignments.push(seal)?;","                if assignments.len() < 2 { assignments.push(seal)?; }",'B02')
b('rights-err',"                assignments.push(seal)?;","                assignments.push(seal).ok();",'B02')
b('attach-lost',"""                    self.attachments
                        .insert(type_id, Confined::with((seal, state)))?;""","""                    if self.attachments.is_empty() { self.attachments
                        .insert(type_id, Confined::with((seal, state)))?; }""",'B02')
b('tag-notown',"""                if self.asset_tag_raw(type_id)? != tag {
                    return Err(BuilderError::AssetTagInvalid(type_id));
                }

                self.add""","""                self.add""",'B02')
q('tag-any',"if matches!(state, PersistedState::Amount(_, _, tag) if self.builder.asset_tag_raw(type_id)? != tag)","if matches!(state, PersistedState::Amount(v, _, tag) if v == Amount::ZERO && self.builder.asset_tag_raw(type_id)? != tag)")
b('init-replace',"        if let Some(tag) = self.asset_tags.get(&type_id) {\n            Ok(*tag)","        if let (Some(tag), true) = (self.asset_tags.get(&type_id), self.fungible.contains_key(&type_id)) {\n            Ok(*tag)",'B02')
b('tag-late',"        if self.fungible.contains_key(&type_id) {\n            return Err(BuilderError::AssetTagAutomatic","        if self.data.contains_key(&type_id) {\n            return Err(BuilderError::AssetTagAutomatic",'B02')
b('meta-notype',"        self.types.strict_deserialize_type(*sem_id, &serialized)?;\n","        self.types.strict_deserialize_type(*sem_id, &serialized).ok();\n",'B02')
b('global-notype',"        self.types.strict_deserialize_type(sem_id, &serialized)?;\n","        if self.global.is_empty() { self.types.strict_deserialize_type(sem_id, &serialized)?; }\n",'B02')
b('global-lost',"        self.global.add_state(type_id, serialized.into())?;","        self.global.add_state(type_id, serialized.into()).ok();",'B02')
b('layer-skip',"""        let seal = seal.into();
        self.check_layer1(seal.layer1())?;
        self.builder = self.builder.add_rights(name, seal)?;""","""        let seal = seal.into();
        self.builder = self.builder.add_rights(name, seal)?;""",'B02')
b('liquid',"Layer1::Liquid => self.alt_layers1.contains(&AltLayer1::Liquid),","Layer1::Liquid => !self.alt_layers1.is_empty() || self.testnet,",'B02')
b('blank-type',"Self::deterministic(contract_id, iface, schema, iimpl, TransitionType::BLANK, types)","Self::deterministic(contract_id, iface, schema, iimpl, TransitionType::with(0), types)",'B02')
b('testnet',"""            builder: OperationBuilder::deterministic(iface, schema, iimpl, types),
            testnet: true,""","""            builder: OperationBuilder::deterministic(iface, schema, iimpl, types),
            testnet: false,""",'B02')
b('salt',"RevealedData::with_salt(allocation.into(), blinding.into())","RevealedData::with_salt(allocation.into(), (blinding as u32).into())",'B02')
b('media',"RevealedAttach::with_salt(attach.id, attach.media_type, salt)","RevealedAttach::with_salt(attach.id, attach.media_type, none!())",'B02') 
b('nobal',"                if inputs.is_empty() {\n                    inputs = vec![BlindingFactor::EMPTY];\n                }\n","",'B03')
b('allinputs',".filter(|(out, _)| out.prev_out.ty == id)",".filter(|(_, st)| matches!(st, PersistedState::Amount(..)))",'B03')
b('skipinput',".filter(|(out, _)| out.prev_out.ty == id)",".filter(|(out, _)| out.prev_out.ty == id && out.prev_out.no != u16::MAX)",'B03')
b('first',"if let Some(assignment) = vec.last_mut() {","if let Some(assignment) = vec.first_mut() {",'B03')
b('nopop',"                blindings.pop();\n","",'B03')
b('remove0',"                blindings.pop();\n","                blindings.remove(0);\n",'B03')
b('noextend',"""            .extend(Assignments::from_inner(owned_data).into_inner())""","""            .extend(Assignments::from_inner(owned_data).into_inner().into_iter().skip(1))""",'B03')
b('global-genesis',"            globals: global,\n            assignments,\n            valencies: none!(),\n            issuer","            globals: none!(),\n            assignments,\n            valencies: none!(),\n            issuer",'B03')
b('nonce',"            nonce: self.nonce,","            nonce: u64::MAX,",'B03')
b('meta-tr',"            transition_type: self.transition_type,\n            metadata,","            transition_type: self.transition_type,\n            metadata: none!(),",'B03')
b('valid',"""            .map_err(|(status, _)| status)?;

        Ok(valid_contract)""","""            .or_else(|(status, c)| if status.failures.len() > 1 { Err(status) } else { c.validate(&DumbResolver, !self.testnet).map_err(|(s, _)| s) })?;

        Ok(valid_contract)""",'B03')
b('net',".validate(&DumbResolver, self.testnet)",".validate(&DumbResolver, true)",'B03')
b('empty-scripts',"let scripts = Confined::from_iter_checked(self.scripts.into_values());","let scripts = Confined::from_iter_checked(self.scripts.into_values().take(1));",'B03')
b('take',"            let vec_data = vec.into_iter().map(|seal| match seal {","            let vec_data = vec.into_iter().take(5).map(|seal| match seal {",'B03')
# behaviour kept
q('helper',"""        match self.fungible.get_mut(&type_id) {
            Some(assignments) => {
                if assignments.contains_key(&seal) {
                    return Err(BuilderError::RepeatedSeal(type_id));
                }
                assignments.insert(seal, state)?;
            }
            None => {
                self.fungible
                    .insert(type_id, Confined::with((seal, state)))?;
            }
        }
""","""        if let Some(assignments) = self.fungible.get_mut(&type_id) {
            if assignments.get(&seal).is_some() {
                return Err(BuilderError::RepeatedSeal(type_id));
            }
            assignments.insert(seal, state)?;
            return Ok(self);
        }
        let fresh = Confined::with((seal, state));
        self.fungible.insert(type_id, fresh)?;
""")
q('loop',"""            let vec_data = vec.into_iter().map(|seal| match seal {
                BuilderSeal::Revealed(seal) => Assign::Revealed {
                    seal,
                    state: none!(),
                    lock: none!(),
                },
                BuilderSeal::Concealed(seal) => Assign::ConfidentialSeal {
                    seal,
                    state: none!(),
                    lock: none!(),
                },
            });
""","""            let mut vec_data = Vec::new();
            for seal in vec {
                vec_data.push(match seal {
                    BuilderSeal::Revealed(seal) => Assign::Revealed { seal, state: none!(), lock: none!() },
                    BuilderSeal::Concealed(seal) => Assign::ConfidentialSeal { seal, state: none!(), lock: none!() },
                });
            }
""")
q('inputs-loop',"""                let mut inputs = inputs
                    .map(|i| {
                        i.iter()
                            .filter(|(out, _)| out.prev_out.ty == id)
                            .map(|(_, ts)| match ts {
                                PersistedState::Amount(_, blinding, _) => *blinding,
                                _ => panic!("previous state has invalid type"),
                            })
                            .collect::<Vec<_>>()
                    })
                    .unwrap_or_default();
                if inputs.is_empty() {
                    inputs = vec![BlindingFactor::EMPTY];
                }
""","""                let mut list = vec![];
                if let Some(map) = inputs {
                    for (out, ts) in map {
                        if out.prev_out.ty != id { continue }
                        let PersistedState::Amount(_, blinding, _) = ts else { panic!("previous state has invalid type") };
                        list.push(*blinding);
                    }
                }
                let inputs = if list.len() > 0 { list } else { vec![BlindingFactor::EMPTY] };
""")
q('order',"""        assignments
            .extend(Assignments::from_inner(owned_data).into_inner())
            .expect("too many assignments");
        assignments
            .extend(Assignments::from_inner(owned_rights).into_inner())
            .expect("too many assignments");
""","""        assignments
            .extend(Assignments::from_inner(owned_rights).into_inner())
            .expect("too many assignments");
        assignments
            .extend(Assignments::from_inner(owned_data).into_inner())
            .expect("too many assignments");
""")
q('kind-let',"""        let state_schema = self.state_schema(type_id);
        if let OwnedStateSchema::Attachment(_) = *state_schema {
            let seal""","""        if matches!(self.state_schema(type_id), OwnedStateSchema::Attachment(_)) {
            let seal""")
q('tag-match',"""        self.asset_tags
            .get(&type_id)
            .ok_or(BuilderError::AssetTagMissed(type_id))
            .copied()""","""        match self.asset_tags.get(&type_id) {
            Some(tag) => Ok(*tag),
            None => Err(BuilderError::AssetTagMissed(type_id)),
        }""")
q('valid-match',"""        let valid_contract = contract
            .validate(&DumbResolver, self.testnet)
            .map_err(|(status, _)| status)?;

        Ok(valid_contract)""","""        match contract.validate(&DumbResolver, self.testnet) {
            Ok(valid) => Ok(valid),
            Err((status, _)) => Err(status.into()),
        }""")
q('transition-helper',"""            inputs: SmallOrdSet::from_iter_checked(self.inputs.into_keys()).into(),""","""            inputs: SmallOrdSet::from_iter_checked(self.inputs.into_iter().map(|(input, _)| input)).into(),""")
q('init-match',"""        if let Some(tag) = self.asset_tags.get(&type_id) {
            Ok(*tag)
        } else {
            let asset_tag = AssetTag::new_random(
                format!("{}/{}", self.schema.schema_id(), self.iface.iface_id()),
                type_id,
            );
            self.asset_tags.insert(type_id, asset_tag)?;
            Ok(asset_tag)
        }""","""        if !self.asset_tags.contains_key(&type_id) {
            let asset_tag = AssetTag::new_random(
                format!("{}/{}", self.schema.schema_id(), self.iface.iface_id()),
                type_id,
            );
            self.asset_tags.insert(type_id, asset_tag)?;
        }
        self.asset_tag_raw(type_id)""")
