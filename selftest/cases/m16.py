from mut import *
M = 'src/persistence/memory.rs'
I = 'src/interface/contract.rs'
TR = """                            OpWitness::Transition(id, ty) => {
                                let ord = self.filter.get(&id).filter(|ord| ord.is_valid())?;
"""
EX = """                            OpWitness::Extension(id, ty) => {
                                let ord = self.filter.get(&id).filter(|ord| ord.is_valid())?;
"""
mut('g-arch', M, TR, TR.replace('.filter(|ord| ord.is_valid())', ''), 'S04')
mut('g-arch2', M, EX, EX.replace('ord.is_valid()', '!ord.is_valid()'), 'S04')
mut('g-unk', M, TR, TR.replace('.filter(|ord| ord.is_valid())?', '.filter(|ord| ord.is_valid()).unwrap_or(&WitnessOrd::Tentative)'), 'S04')
mut('g-swap', M, 'GlobalOrd::extension(out.opid, out.index, ty, out.nonce, *ord)', 'GlobalOrd::extension(out.opid, out.index, ty, 0, *ord)', 'S04')
mut('g-gen', M, 'OpWitness::Genesis => GlobalOrd::genesis(out.index)', 'OpWitness::Genesis => GlobalOrd::genesis(out.index.min(100))', 'S04')
mut('g-gen2', M, 'OpWitness::Genesis => GlobalOrd::genesis(out.index)', 'OpWitness::Genesis if out.index == 0 => GlobalOrd::genesis(out.index),\n                            OpWitness::Genesis => return None', 'S04')
mut('g-lim', M, '.take(state.limit.to_usize())', '.take(state.limit.to_usize() - 1)', 'S04')
mut('g-lim2', M, '                    .take(state.limit.to_usize()),\n', '                    .take(state.limit.to_usize()).skip(1),\n', 'S04')
mut('g-src', M, 'src.iter()\n                    .rev()', 'src.iter()\n                    .take(state.limit.to_usize()).rev()', 'S04')
mut('g-size', M, 'let size = (self.constructor)(self.src).count();', 'let size = self.iter.by_ref().count();', 'S04')
mut('g-size2', M, 'let size = (self.constructor)(self.src).count();', 'let size = (self.constructor)(self.src).count() + 1;', 'S04')
mut('g-prev', M, '                self.last = self.iter.next();\n                self.last()', '                self.iter.next();\n                self.last()', 'S04')
mut('g-prev2', M, '                self.last = self.iter.next();\n                self.last()', '                let prev = self.last;\n                self.last = self.iter.next();\n                prev', 'S04')
mut('g-reset', M, '                self.iter = (self.constructor)(self.src);\n                self.last', '                self.last', 'S04')
mut('g-reset2', M, 'self.iter.nth(depth.to_usize())', 'self.iter.nth(depth.to_usize() + 1)', 'S04')
mut('g-last', M, 'fn last(&mut self) -> Option<(GlobalOrd, Self::Data)> { self.last }', 'fn last(&mut self) -> Option<(GlobalOrd, Self::Data)> { self.last.take() }', 'S04')
mut('g-ifc', I, '.ok_or(ContractError::FieldNameUnknown(name))?;\n        let global_schema', '.or_else(|| self.iface.global_state.first().map(|g| g.id))\n            .ok_or(ContractError::FieldNameUnknown(name))?;\n        let global_schema', 'S04')
mut('g-ifc2', I, """                    .unbox()
            }))
    }
""", """                    .unbox()
            })
            .take(1))
    }
""", 'S04')
mut('g-new', M, 'MemGlobalState::new(glob.max_items)', 'MemGlobalState::new(glob.max_items.max(u24::ONE))', 'S04')
# behaviour-preserving
mut('gq-help', [(M, TR, """                            OpWitness::Transition(id, ty) => {
                                let ord = self.valid_ord(id)?;
"""), (M, EX, """                            OpWitness::Extension(id, ty) => {
                                let ord = self.valid_ord(id)?;
"""), (M, 'impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {', """impl<M: Borrow<MemContractState>> MemContract<M> {
    fn valid_ord(&self, id: XWitnessId) -> Option<&WitnessOrd> {
        let ord = self.filter.get(&id)?;
        if *ord == WitnessOrd::Archived {
            return None;
        }
        Some(ord)
    }
}

impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {""")], None, None, 'S04', 0)
mut('gq-prev', M, '                self.last = self.iter.next();\n                self.last()', '                let item = self.iter.next();\n                self.last = item;\n                item', 'S04', 0)
mut('gq-size', M, 'let size = (self.constructor)(self.src).count();', 'let mut size = 0usize;\n                for _ in (self.constructor)(self.src) {\n                    size += 1;\n                }', 'S04', 0)
mut('gq-reset', M, '                self.iter = (self.constructor)(self.src);\n                self.last = self.iter.nth(depth.to_usize());', '                let mut fresh = (self.constructor)(self.src);\n                let last = fresh.nth(depth.to_usize());\n                self.last = last;\n                self.iter = fresh;', 'S04', 0)
mut('gq-match', M, TR, """                            OpWitness::Transition(id, ty) => {
                                let ord = match self.filter.get(&id) {
                                    None | Some(WitnessOrd::Archived) => return None,
                                    Some(ord) => ord,
                                };
""", 'S04', 0)
mut('gq-state', M, """        let state = self
            .unfiltered
            .borrow()
            .global
            .get(&ty)
            .ok_or(UnknownGlobalStateType(ty))?;

        let constructor""", """        let Some(state) = self.unfiltered.borrow().global.get(&ty) else {
            return Err(UnknownGlobalStateType(ty));
        };

        let constructor""", 'S04', 0)
mut('gq-ifc', I, """        let type_id = self
            .iface
            .global_type(&name)
            .ok_or(ContractError::FieldNameUnknown(name))?;
        let global_schema""", """        let Some(type_id) = self.iface.global_type(&name) else {
            return Err(ContractError::FieldNameUnknown(name));
        };
        let global_schema""", 'S04', 0)
mut('g-reset3', M, 'self.last = self.iter.nth(depth.to_usize());', 'self.last = (self.constructor)(self.src).nth(depth.to_usize());', 'S04')
mut('gq-reset2', M, 'self.iter.nth(depth.to_usize())', 'Iterator::nth(&mut self.iter, depth.to_usize())', 'S04', 0)
