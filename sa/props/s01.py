"""history accumulation"""
from rules import *

RULE = '''MIR of adding an operation to a contract's history, with helpers inlined. For genesis and graph assignments alike:
the loop covers every typed assignment list, each of the four state kinds goes to the collection of that kind, and every
revealed item is added with the operation's id, the list's type, its own position, its own state, and the seal resolved
against the operation's witness (or none). Every global state item is added under its type with its own position.
The writers register the witness and hand the operation over; nothing ever removes from these collections.'''
FLOOR = 49
COLL = {'Declarative': 'rights', 'Fungible': 'fungibles', 'Structured': 'data', 'Attachment': 'attach'}


def check(ck):
    p = ck.p
    S = 'MemContractState::add_operation'
    g = ck.graph(G(p, p.find('add_operation', 'MemContractState')))
    OP = 'Operation::assignments($1)'
    WIT = 'OrdOpRef::witness_id($1)'
    ID = 'Operation::id($1)'
    for side in ('Genesis', 'Graph'):
        top = '%s@%s' % (OP, side)
        ck.hold(S, g.after(['%s is %s' % (OP, side)], None, unless=['end ' + top]),
                'all typed %s assignments are visited' % side)
        ck.ob(S, bool(g.edges(['%s is %s' % (OP, side)])), '%s assignments are handled' % side)
        for kind, coll in COLL.items():
            lst = 'each(%s).1@%s' % (top, kind)
            x = 'Assign::to_revealed(each(%s))' % lst
            opout = 'Opout::new(%s, each(%s).0, position(%s) as u16)' % (ID, top, lst)
            want = ['OutputAssignment{opout: %s, seal: XChain::try_to_output_seal(%s@Some.0, %s@Some)@Ok, state: %s@Some.1, '
                    'witness: Option::Some(%s@Some)}' % (opout, x, WIT, x, WIT),
                    'OutputAssignment{opout: %s, seal: XChain::try_to_output_seal(%s@Some.0, %s@Some)@Ok, state: %s@Some.1, '
                    'witness: %s}' % (opout, x, WIT, x, WIT),
                    'OutputAssignment{opout: %s, seal: XChain::to_output_seal(%s@Some.0)@Some, state: %s@Some.1, '
                    'witness: Option::None}' % (opout, x, x)]
            mine = [e for e in g.events('add') if lst + ')' in show(e.args[1])]
            ck.ob(S, len(mine) >= 2, '%s %s items are added (%d sites)' % (side, kind, len(mine)))
            for e in mine:
                ck.ob(S, e.dst == '$0.' + coll, '%s items go to %s: %s' % (kind, coll, e.dst), loc=e.loc)
                ck.ob(S, m(e.args[1], want), '%s item is recorded with its own id, type, position, seal, state and witness: %s'
                      % (kind, cutstr(show(e.args[1]), 400)), loc=e.loc)
                ww = 'witness: Option::None' not in show(e.args[1])
                ck.hold(S, g.only_if(lambda z: z is e, [WIT + (' is Some' if ww else ' is None')]),
                        'the witness is taken from the operation')
            ck.hold(S, g.after(['each(%s).1 is %s' % (top, kind)], None, unless=['end ' + lst],
                               target=heads(g, top)), 'every %s %s item is visited' % (side, kind))
            ck.hold(S, g.foreach(lst, lambda e: e in mine, unless=[x + ' is None'], complete=False),
                    'every revealed %s %s item is added' % (side, kind))
    # global state
    gl = 'Operation::globals($1)'
    it = 'each(%s).1' % gl
    gout = 'GlobalOut{opid: %s, nonce: Operation::nonce($1), index: position(%s) as u16, op_witness: *}' % (ID, it)
    q = E('add', None, '(%s, each(%s))' % (gout, it))
    ck.hold(S, g.must(lits=['end ' + gl]), 'all global state types are visited')
    ck.hold(S, g.foreach(it, q, complete=False), 'every global state item is added with its position')
    ck.hold(S, g.after(['next ' + gl], None, unless=['end ' + it], target=heads(g, gl)),
            'all items of each global type are visited')
    for e in g.events('add', pred=q):
        ck.ob(S, e.dst == '$0.global[each(%s).0].known' % gl, 'global state is stored under its own type: %s' % e.dst, loc=e.loc)
        ow = field(field(e.args[1], '0'), 'op_witness')
        for v in alts(ow):
            ck.ob(S, v.op == 'agg' and m(v, {
                'Genesis': 'OpWitness::Genesis',
                'Transition': 'OpWitness::Transition($1@Transition.1, $1@Transition.transition_type)',
                'Extension': 'OpWitness::Extension($1@Extension.1, $1@Extension.extension_type)'}.get(v.a[1], '\0')),
                'the origin of global state is recorded: %s' % show(v))
    for e in g.events(['remove', 'clear', 'retain']):
        ck.ob(S, False, 'history is never removed', loc=e.loc)
    # writers
    ty = p.adt('MemContractWriter')
    for nm, kind in (('add_genesis', 'Genesis'), ('add_transition', 'Transition'), ('add_extension', 'Extension')):
        S2 = 'ContractStateWrite::' + nm
        h = ck.graph(G(p, p.find(nm, 'MemContractWriter', 'ContractStateWrite'), ['MemContractState::add_operation']))
        arg = 'OrdOpRef::Genesis($1)' if kind == 'Genesis' else 'OrdOpRef::%s($1, $2, $3)' % kind
        ck.hold(S2, h.must(E('MemContractState::add_operation', '$0.contract', arg)), 'the operation is added to the history')
        if kind != 'Genesis':
            calls = h.events(pred=lambda e: e.kind == 'call' and len(e.args) >= 2 and (
                '$0.writer' in show(e.args[0])) and show(e.args[1]).replace('(', '').replace(')', '') == '$2, $3' or
                e.kind == 'call' and [show(a) for a in e.args[1:3]] == ['$2', '$3'])
            ck.ob(S2, bool(calls), 'the witness is registered')
            ck.hold(S2, h.must(lambda e: e in calls), 'the witness is registered on every success')
    for nm in ('register_contract', 'update_contract'):
        S2 = 'StateWriteProvider::' + nm
        fn = p.find(nm, 'MemState', 'StateWriteProvider')
        h0 = ck.graph(G(p, fn, ['MemContractState::*', 'ContractStateWrite::*', 'MemContractWriter::*']))
        ok = 0
        for n, r in h0.rets():
            for x in okval(r):
                for t in subterms(x):
                    if t.op == 'agg' and t.a[0] == ty:
                        w = field(t, 'writer')
                        ck.ob(S2, w.op == 'agg' and w.a[0].startswith('closure:') and '&mut<$0.witnesses>' in show(w),
                              'the writer has access to the stored witnesses: %s' % show(w))
                        h = ck.graph(G(p, p.fns[w.a[0][8:]]))
                        ad = [e for e in h.events('add') if show(e.args[1]) == '($1, $2)' and e.dst.endswith('witnesses')]
                        ok += len(ad)
                        ck.hold(S2, h.must(lambda e: e in ad), 'a registered witness is stored with its status')
                        c = field(t, 'contract')
                        ck.ob(S2, show(c).startswith('&mut<$0.contracts['), 'the writer works on the stored contract')
        ck.ob(S2, ok, 'registering a witness stores it with its status')
    h = ck.graph(G(p, p.find('register_contract', 'MemState', 'StateWriteProvider'), ['MemContractState::*', 'ContractStateWrite::*', 'MemContractWriter::*']))
    S2 = 'StateWriteProvider::register_contract'
    ck.hold(S2, h.only_if(E('add', None, '(Operation::contract_id($2), MemContractState::new($1, Operation::contract_id($2)))'),
                          ['get($0.contracts, Operation::contract_id($2)) is None']), 'known history is never replaced')
    ck.ob(S2, all(m(e.args[1], '(Operation::contract_id($2), MemContractState::new($1, Operation::contract_id($2)))')
                  for e in h.events('add')), 'only a fresh history is inserted')
    ck.hold(S2, h.must(E('*add_genesis', None, '$2')), 'the genesis is added to the history')
    h = ck.graph(G(p, p.find('evolve_state', 'MemContract', 'ContractStateEvolve'), ['*::add_genesis', '*::add_transition', '*::add_extension']))
    for k, nm, a in (('Genesis', 'add_genesis', ['$1@Genesis']),
                     ('Transition', 'add_transition', ['$1@Transition', '$1@Transition.1', '$1@Transition.2']),
                     ('Extension', 'add_extension', ['$1@Extension', '$1@Extension.1', '$1@Extension.2'])):
        ck.hold('ContractStateEvolve::evolve_state', h.after(['$1 is ' + k], E('*' + nm, None, *a)), '%s is added' % k)
        ck.ob('ContractStateEvolve::evolve_state', bool(h.edges(['$1 is ' + k])), '%s is handled' % k)


def heads(g, src):
    ids = {n.id for n, _, _ in g.edges(['next ' + src, 'end ' + src])}
    oks = {n.id for n in g.okrets()}
    return lambda n, e: e is None and (n.id in ids or n.id in oks)
