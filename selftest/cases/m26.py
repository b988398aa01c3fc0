from mut import *

AN = 'src/containers/anchors.rs'
PA = 'src/containers/partials.rs'
IF = 'src/interface/iface.rs'
AS = 'src/contract/assignments.rs'
SP = 'src/stl/specs.rs'
II = 'src/interface/iimpl.rs'
Q = 'Q02'
mut('eq-iface-name', IF, 'fn eq(&self, other: &Self) -> bool { self.iface_id() == other.iface_id() }', 'fn eq(&self, other: &Self) -> bool { self.name == other.name }', Q, 1)
mut('eq-iface-ord', IF, 'fn cmp(&self, other: &Self) -> Ordering { self.iface_id().cmp(&other.iface_id()) }', 'fn cmp(&self, other: &Self) -> Ordering { self.name.cmp(&other.name) }', Q, 1)
mut('eq-iface-hash', IF, 'state.write(self.iface_id().as_slice())', 'self.developer.hash(state)', Q, 1)
mut('eq-iface-none', IF, 'fn partial_cmp(&self, other: &Self) -> Option<Ordering> { Some(self.cmp(other)) }', 'fn partial_cmp(&self, other: &Self) -> Option<Ordering> { self.name.partial_cmp(&other.name) }', Q, 1)
mut('eq-ti-method', PA, 'fn eq(&self, other: &Self) -> bool { self.id.eq(&other.id) }', 'fn eq(&self, other: &Self) -> bool { self.id.eq(&other.id) && self.method == other.method }', Q, 1)
mut('eq-ti-or', PA, 'fn eq(&self, other: &Self) -> bool { self.id.eq(&other.id) }', 'fn eq(&self, other: &Self) -> bool { self.id.eq(&other.id) || self.inputs == other.inputs }', Q, 1)
mut('eq-ti-rev', PA, 'fn cmp(&self, other: &Self) -> Ordering { self.id.cmp(&other.id) }', 'fn cmp(&self, other: &Self) -> Ordering { other.id.cmp(&self.id) }', Q, 1)
mut('eq-wb', AN, 'fn eq(&self, other: &Self) -> bool { self.pub_witness == other.pub_witness }', 'fn eq(&self, other: &Self) -> bool { self.pub_witness == other.pub_witness && self.anchored_bundles == other.anchored_bundles }', Q, 1)
mut('eq-oa-seal', AS, 'let res = self.opout == other.opout && self.seal == other.seal;', 'let res = self.opout == other.opout;', Q, 1)
mut('eq-oa-ord', AS, 'Ordering::Equal => self.seal.cmp(&other.seal),', 'Ordering::Equal => self.witness.cmp(&other.witness),', Q, 1)
mut('eq-oa-cmp', AS, '''        match self.opout.cmp(&other.opout) {
            Ordering::Equal => self.seal.cmp(&other.seal),
            ordering => ordering,
        }''', '''        self.opout.cmp(&other.opout)''', Q, 1)
mut('eq-oa-hash', AS, '''        self.opout.hash(state);
        self.seal.hash(state);''', '''        self.opout.hash(state);
        self.witness.hash(state);''', Q, 1)
mut('eq-named', II, '''    fn eq(&self, other: &Self) -> bool { self.id == other.id || self.name == other.name }
}

impl<T: SchemaTypeIndex> NamedField<T> {''', '''    fn eq(&self, other: &Self) -> bool { self.name == other.name }
}

impl<T: SchemaTypeIndex> NamedField<T> {''', Q, 1)
mut('eqq-oa-then', AS, '''        match self.opout.cmp(&other.opout) {
            Ordering::Equal => self.seal.cmp(&other.seal),
            ordering => ordering,
        }''', '''        self.opout.cmp(&other.opout).then(self.seal.cmp(&other.seal))''', Q, 0)
mut('eqq-oa-thenwith', AS, '''        match self.opout.cmp(&other.opout) {
            Ordering::Equal => self.seal.cmp(&other.seal),
            ordering => ordering,
        }''', '''        self.opout
            .cmp(&other.opout)
            .then_with(|| self.seal.cmp(&other.seal))''', Q, 0)
mut('eqq-oa-direct', AS, '''        if self == other {
            return Ordering::Equal;
        }
        match''', '''        match''', Q, 0)
mut('eqq-oa-if', AS, '''        match self.opout.cmp(&other.opout) {
            Ordering::Equal => self.seal.cmp(&other.seal),
            ordering => ordering,
        }''', '''        let ordering = self.opout.cmp(&other.opout);
        if ordering != Ordering::Equal {
            return ordering;
        }
        self.seal.cmp(&other.seal)''', Q, 0)
mut('eqq-oa-tuple', AS, '''        match self.opout.cmp(&other.opout) {
            Ordering::Equal => self.seal.cmp(&other.seal),
            ordering => ordering,
        }''', '''        (self.opout, self.seal).cmp(&(other.opout, other.seal))''', Q, 0)
mut('eqq-oa-eqtuple', AS, 'let res = self.opout == other.opout && self.seal == other.seal;', 'let res = (self.opout, self.seal) == (other.opout, other.seal);', Q, 0)
mut('eqq-oa-early', AS, '''        let res = self.opout == other.opout && self.seal == other.seal;
        #[cfg(debug_assertions)]
        if res {
            debug_assert_eq!(self.state, other.state);
        }
        res''', '''        if self.opout != other.opout || self.seal != other.seal {
            return false;
        }
        debug_assert_eq!(self.state, other.state);
        true''', Q, 0)
mut('eqq-oa-order', AS, '''        self.opout.hash(state);
        self.seal.hash(state);''', '''        self.seal.hash(state);
        self.opout.hash(state);''', Q, 0)
mut('eqq-oa-hashtuple', AS, '''        self.opout.hash(state);
        self.seal.hash(state);''', '''        (self.opout, self.seal).hash(state);''', Q, 0)
mut('eqq-iface-hash', IF, 'state.write(self.iface_id().as_slice())', 'let id = self.iface_id();\n        id.hash(state)', Q, 0)
mut('eqq-iface-cmp', IF, 'fn eq(&self, other: &Self) -> bool { self.iface_id() == other.iface_id() }', 'fn eq(&self, other: &Self) -> bool { self.cmp(other) == Ordering::Equal }', Q, 0)
mut('eqq-iface-is', IF, 'fn eq(&self, other: &Self) -> bool { self.iface_id() == other.iface_id() }', 'fn eq(&self, other: &Self) -> bool { self.cmp(other).is_eq() }', Q, 0)
mut('eqq-ti-part', PA, 'fn partial_cmp(&self, other: &Self) -> Option<Ordering> { Some(self.cmp(other)) }', 'fn partial_cmp(&self, other: &Self) -> Option<Ordering> { self.id.partial_cmp(&other.id) }', Q, 0)
mut('eqq-pw', AN, '''    fn eq(&self, other: &Self) -> bool { self.txid() == other.txid() }''', '''    fn eq(&self, other: &Self) -> bool {
        let (ours, theirs) = (self.txid(), other.txid());
        ours == theirs
    }''', Q, 0)
mut('eqq-ticker', SP, '''        self.as_str()
            .to_uppercase()
            .eq(&other.as_str().to_uppercase())''', '''        self.as_str().to_uppercase() == other.as_str().to_uppercase()''', Q, 0)
mut('eqq-ticker-cmp', SP, '''        self.as_str()
            .to_uppercase()
            .eq(&other.as_str().to_uppercase())''', '''        self.cmp(other) == Ordering::Equal''', Q, 0)
