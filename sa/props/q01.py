"""owned state read through an interface"""
from rules import *

RULE = '''From MIR: each reader by name finds the type bound to exactly that name by the interface implementation and refuses
exactly unknown names; it lists the items of its own kind of state which have this type and are accepted by the filter for
their own output and witness, completely and with output, origin, witness and state of the same item. The list of all
allocations does so for all four kinds of state. A filter by outputs accepts exactly the outputs it contains, whatever the
witness; an exclusion negates, a reference or an option delegates with the same output and witness, and an absent filter
accepts everything. States of each kind are converted into the allocated state of the same kind and value.'''
FLOOR = 40
KINDS = {'rights': 'rights', 'fungible': 'fungible', 'data': 'data', 'attachments': 'attach'}
FROM = {'()': 'AllocatedState::Void', 'VoidState': 'AllocatedState::Void', 'Amount': 'AllocatedState::Amount($0)',
        'RevealedValue': ['AllocatedState::Amount(Amount(FungibleState::as_u64($0.value)))', 'AllocatedState::Amount(conv:Amount($0))',
                          'AllocatedState::Amount(Amount(FungibleState::as_u64(conv:FungibleState($0))))'],
        'DataState': 'AllocatedState::Data($0)', 'RevealedData': ['AllocatedState::Data(conv:DataState($0))', 'AllocatedState::Data($0.value)'],
        'AttachState': 'AllocatedState::Attachment($0)',
        'RevealedAttach': ['AllocatedState::Attachment(conv:AttachState($0))', 'AllocatedState::Attachment($0.file)'],
        'Allocation': ['AllocatedState::Data(conv:DataState(StrictSerialize::to_strict_serialized($0)@Ok))',
                       'AllocatedState::Data(conv:DataState($0))']}


def eq(a, b):
    return ['(%s == %s)' % (a, b), '(%s == %s)' % (b, a)]


def no(ls):
    return ['!' + x for x in ls]


def items(x):
    return [x] + ['OutputAssignment{opout: %s.opout, seal: %s.seal, state: %s, witness: %s.witness}' % (x, x, s, x)
                  for s in ('conv:*(%s.state)' % x, x + '.state')]


def included(flt, x):
    f = 'AssignmentsFilter::should_include(%s, %s.seal, %s.witness)' % (flt, x, x)
    c = 'AssignmentsFilter::should_include(%s, conv:XOutpoint(%s.seal), %s.witness)' % (flt, x, x)
    return [f, c]


def member(ck, S, g, coll):
    """the function tells whether the collection contains the output"""
    for x in ('conv:XOutpoint($1)',):
        key = ['each(%s).0' % coll, 'each(%s)' % coll, 'each(keys(%s))' % coll]
        pos = [l for k in key for l in eq(x, k)] + ['contains(%s, %s)' % (coll, x), 'get(%s, %s) is Some' % (coll, x)]
        neg = ['end ' + coll, 'end keys(%s)' % coll, '!contains(%s, %s)' % (coll, x), 'get(%s, %s) is None' % (coll, x)]
        for n, r in g.rets():
            for a in alts(r):
                s = show(a)
                if s == 'contains(%s, %s)' % (coll, x):
                    ck.ob(S, True, 'membership decides')
                elif s in ('true', 'false'):
                    ck.hold(S, g.ret_only_if(s, pos if s == 'true' else neg), '%s means the output is %sin the set' % (s, '' if s == 'true' else 'not '))
                else:
                    ck.ob(S, False, 'membership decides: %s' % cutstr(s))
        vals = {show(a) for _, r in g.rets() for a in alts(r)}
        ck.ob(S, vals != {'true'} and vals != {'false'} and bool(vals), 'the answer depends on the set: %s' % sorted(vals))


def check(ck):
    p = ck.p
    b = '$0.iface.assignments'
    t = 'each(%s)' % b
    for k, src in KINDS.items():
        S = 'ContractIface::' + k
        fn = p.find(k, 'ContractIface')
        all = 'ContractStateRead::%s_all($0.state)' % src
        x = 'each(%s)' % all
        ty = eq(t + '.id', x + '.opout.ty')
        inc = included('$2', x)
        g, gs = listing(ck, S, fn, all, items(x), [('it has the type bound to the name', ty, no(ty)),
                                                   ('the filter accepts it', inc, no(inc))], okres=True, what='the %s reader' % k)
        named = eq('$1', t + '.name')
        ck.hold(S, g.must(lits=named), 'the type is the one bound to the name asked for')
        ck.hold(S, g.ret_only_if('Result::Err(*', ['end ' + b]), 'only an unknown name is refused')
        for n, r in g.rets():
            if r.op == 'agg' and r.a[1] == 'Err':
                ck.ob(S, m(r, ['Result::Err(ContractError::FieldNameUnknown($1))', 'Result::Err(conv:ContractError(ContractError::FieldNameUnknown($1)))']),
                      'the name is reported: %s' % show(r))
    alls = {s: 'ContractStateRead::%s_all($0.state)' % s for s in KINDS.values()}
    for k in ('allocations', 'outpoint_allocations'):
        S = 'ContractIface::' + k
        fn = p.find(k, 'ContractIface')
        g = None
        for s, all in alls.items():
            x = 'each(%s)' % all
            inc = included('$1', x)
            if k == 'outpoint_allocations':
                inc += eq('$1', 'conv:XOutpoint(%s.seal)' % x)
            others = [i for o, a in alls.items() if o != s for i in items('each(%s)' % a)]
            g, _ = listing(ck, S, fn, all, items(x), [('the filter accepts it', inc, no(inc))], what='the list of %s' % s, g=g, allow=others)
    # filters
    done = set()
    for f in p.by_name['should_include']:
        self = f.path.split(' as ')[0].split('<', 1)[1]
        S = 'AssignmentsFilter for ' + self.replace('interface::filter::', '').replace('std::collections::', '').replace('rgb::', '')
        g = ck.graph(G(p, f))
        deleg = lambda base: ['AssignmentsFilter::should_include(%s, %s, $2)' % (base, o) for o in ('$1', 'conv:XOutpoint($1)')]
        rs = [(n, a) for n, r in g.rets() for a in alts(r)]
        kind = next((k for k in ('FilterIncludeAll', 'FilterExclude', 'Option', '&T', '&mut T', 'XOutpoint') if k in self), None)
        if kind == 'XOutpoint' and not self.endswith('rgb::XOutpoint'):
            kind = None
        if self.startswith('&') and kind in ('&T', '&mut T') or kind and not self.startswith('&'):
            done.add(kind)
            if kind == 'FilterIncludeAll':
                ck.ob(S, all_(rs, ['true']), 'everything is accepted')
            elif kind == 'FilterExclude':
                for n, a in rs:
                    if m(a, ['true', 'false']):
                        ck.hold(S, g.ret_only_if(show(a), (no(deleg('$0.0')) if show(a) == 'true' else deleg('$0.0'))), 'the filter is negated')
                    else:
                        ck.ob(S, m(a, ['!' + d for d in deleg('$0.0')]), 'the filter is negated: %s' % show(a))
            elif kind == 'Option':
                some = deleg('$0@Some')
                ck.ob(S, all_(rs, ['true', 'false'] + some), 'the inner filter decides: %s' % [show(a) for _, a in rs])
                ck.ob(S, any(m(a, some) for _, a in rs) or bool(g.edges(some)), 'the inner filter is asked')
                ck.hold(S, g.ret_only_if('true', ['$0 is None'] + some), 'without a filter everything is accepted')
                ck.hold(S, g.ret_only_if('false', no(some)), 'nothing is refused without a filter')
                x = g.reach([e for _, e, _ in g.edges(['$0 is None'])], lambda n, e: e is None and n.ret is not None and not m(n.ret, 'true'))
                ck.ob(S, x is None and bool(g.edges(['$0 is None'])), 'an absent filter accepts', x and g.describe(x))
                x = g.reach([e for _, e, _ in g.edges(['$0 is Some'])], lambda n, e: e is None and n.ret is not None and not m(n.ret, some), None,
                            lambda l: lm(l, some + no(some)))
                ck.ob(S, x is None, 'a present filter decides', x and g.describe(x))
            elif kind == 'XOutpoint':
                for n, a in rs:
                    ck.ob(S, m(a, eq('$0', 'conv:XOutpoint($1)')), 'exactly this output is accepted: %s' % show(a))
            else:
                ck.ob(S, all_(rs, deleg('$0')), 'the filter referred to decides: %s' % [show(a) for _, a in rs])
        else:
            done.add(self)
            member(ck, S, g, '$0')
    ck.ob('AssignmentsFilter', len(done) >= 12, 'the kinds of filters are known: %d' % len(done))
    # conversions
    n = 0
    for f in p.fns.values():
        if f.name == 'from' and '<interface::contract::AllocatedState as std::convert::From<' in f.path:
            src = f.path.split('From<')[1].split('>>')[0].split('::')[-1]
            S = 'AllocatedState from ' + src
            g = ck.graph(G(p, f))
            for _, r in g.rets():
                ck.ob(S, src in FROM and m(r, FROM[src]), 'the state keeps kind and value: %s' % show(r))
                n += 1
    ck.ob('AllocatedState', n >= 8, 'conversions are known: %d' % n)
    S = 'OutputAssignment::transmute'
    g = ck.graph(G(p, p.find('transmute', 'OutputAssignment')))
    for _, r in g.rets():
        ck.ob(S, m(r, items('$0')[1:]), 'an item keeps its parts: %s' % show(r))
    S = 'ContractIface::witness_info'
    g = ck.graph(G(p, p.find('witness_info', 'ContractIface')))
    w = 'ContractStateRead::witness_ord($0.state, $1)'
    for _, r in g.rets():
        ck.ob(S, m(r, ['Option::Some(WitnessInfo{id: $1, ord: %s@Some})' % w, 'Option::None']), 'id and status belong together: %s' % show(r))
    ck.hold(S, g.ret_only_if('Option::None', [w + ' is None']), 'a known witness is described')


def all_(rs, pats):
    return bool(rs) and all(m(a, pats) for _, a in rs)
