from mut import *
def b(n,f,o,w,ids='K04'): mut(n,f,o,w,ids,1)
def q(n,f,o,w,ids='K04'): mut(n,f,o,w,ids,0)
M='src/persistence/memory.rs'
I='src/persistence/index.rs'
T='src/persistence/stock.rs'
b('sw1',M,"index.outpoint_opouts.insert(output, medium_bset!(opout))?;","index.outpoint_opouts.insert(output, medium_bset!(opout)).ok();") if False else None
b('sw2',I,"self.provider.register_operation(*opid, bundle_id)?;","self.provider.register_operation(*opid, bundle_id).ok();")
b('sw3',M,"opouts.push(opout)?;","let _ = opouts.push(opout);") if False else None
b('sw4',T,".consume_witness(SealWitness::new(fascia.witness.clone(), fascia.anchor.clone()))?;",".consume_witness(SealWitness::new(fascia.witness.clone(), fascia.anchor.clone())).ok();")
b('sw5',T,"        self.store_transaction(move |stash, state, index| {\n            stash.consume_consignment(consignment.clone())?;","        self.store_transaction(move |stash, state, index| {\n            if stash.consume_consignment(consignment.clone()).is_err() { return Ok(()) }") if False else None
b('sw6',M,"self.terminal_index.insert(seal, tiny_bset![opout])?;","if let Err(e) = self.terminal_index.insert(seal, tiny_bset![opout]) { eprintln!(\"{e}\"); }")
b('sw7','src/persistence/stash.rs',"""            self.provider
                .replace_attachment(id, attach)
                .map_err(StashError::WriteProvider)?;""","""            match self.provider.replace_attachment(id, attach) {
                Ok(_) => {}
                Err(_) => continue,
            }""")
b('sw8',I,"""        self.provider
            .register_bundle(bundle_id, witness_id, contract_id)?;""","""        let _ = self.provider
            .register_bundle(bundle_id, witness_id, contract_id);""")
q('k-match',I,"self.provider.register_operation(*opid, bundle_id)?;","if let Err(e) = self.provider.register_operation(*opid, bundle_id) { return Err(e.into()); }")
q('k-is',M,"self.terminal_index.insert(seal, tiny_bset![opout])?;","let res = self.terminal_index.insert(seal, tiny_bset![opout]);\n                if res.is_err() {\n                    res?;\n                }")
q('k-and',I,"self.provider.register_operation(*opid, bundle_id)?;","let mut failed = None;\n            if let Err(e) = self.provider.register_operation(*opid, bundle_id) { failed = Some(e); }\n            if let Some(e) = failed { return Err(e.into()); }")
