"""inheritance of schemata, and implementations for parent interfaces"""
from rules import *

RULE = '''From MIR, with the checks of operations inlined: the inheritance check of a schema reports exactly every global state type,
assignment type, valency, transition and extension the root schema does not have (or defines differently), and for genesis and every
operation both have, every global state, assignment, input, valency and redeemed valency which the operation of the root does not have
or has in another number; it succeeds exactly if nothing was reported and returns all reports otherwise. An implementation is turned into
one for a parent interface exactly if the base interface inherits from it; of each of its seven lists exactly the entries whose
names the parent defines are kept, the interface becomes the parent, and nothing else changes.'''
FLOOR = 100
I = 'InheritanceFailure::'


def differs(own, root, key, val):
    """the root has no such key, or another value"""
    e = 'each(%s)' % own
    y, n = known(root, e + key)
    if not val:
        return [(n, y)]
    got = 'get(%s, %s)' % (root, e + key)
    same, other = eqs(e + val, got + '@Some')
    whole, no = eqs('Option::Some(%s%s)' % (e, val), got)
    return [(n + other + no, same + whole)]


def check(ck):
    p = ck.p
    S = 'Schema::check_inheritance'
    g = ck.graph(G(p, p.find('check_inheritance', 'Schema', 'CheckInheritance')))
    items = []

    def rep(it, conds, **kw):
        items.append(it)
        report(ck, S, g, it, conds, **kw)

    for lst, what, key, val in (('global_types', 'GlobalState', '.0', '.1'), ('owned_types', 'AssignmentType', '.0', '.1'),
                                ('valency_types', 'ValencyType', '', None), ('transitions', 'TransitionType', '.0', None),
                                ('extensions', 'ExtensionType', '.0', None)):
        rep('%s%sMismatch(each($0.%s)%s)' % (I, what, lst, key), differs('$0.' + lst, '$1.' + lst, key, val), src='$0.' + lst)
    for op, own, root, outer, absent in (
            ('OpFullType::Genesis', '$0.genesis', '$1.genesis', None, []),
            ('OpFullType::StateTransition(each($0.transitions).0)', 'each($0.transitions).1',
             'get($1.transitions, each($0.transitions).0)@Some', '$0.transitions', ['get($1.transitions, each($0.transitions).0) is None']),
            ('OpFullType::StateExtension(each($0.extensions).0)', 'each($0.extensions).1',
             'get($1.extensions, each($0.extensions).0)@Some', '$0.extensions', ['get($1.extensions, each($0.extensions).0) is None'])):
        for acc, what, key, val, opt in (('globals', 'GlobalState', '.0', '.1', 0), ('inputs', 'Input', '.0', '.1', 1), ('assignments', 'Assignments', '.0', '.1', 0),
                                         ('redeems', 'Redeem', '', None, 1), ('valencies', 'Valency', '', None, 0)):
            a, r = 'OpSchema::%s(%s)' % (acc, own), 'OpSchema::%s(%s)' % (acc, root)
            src = a + '@Some' if opt else a
            it = '%sOp%sMismatch(%s, each(%s)%s)' % (I, what, op, src, key)
            rep(it, differs(src, r + '@Some' if opt else r, key, val), src=src, outer=outer, excuse=absent + ([a + ' is None'] if opt else []))
    moved(ck, S, g)
    verdict(ck, S, g, 'InheritanceFailure', items)
    abstracted(ck)


def moved(ck, S, g):
    """lists of problems of operations become part of the whole list"""
    lists = {l[1] for _, _, ls in g.edges(lambda l: l[0] == 'some') for l in ls if l[0] == 'some' and 'InheritanceFailure::' in show(l[1])}
    for t in lists:
        x = show(t)
        ck.hold(S, g.foreach(x, lambda e: e.name == 'add' and any(a.op != 'agg' or show(a).startswith(I) for a in alts(e.args[-1])), complete=False,
                             target=lambda n, e: e is None and n.ret is not None), 'no problem found is dropped')


def abstracted(ck):
    p = ck.p
    S = 'IfaceImpl::abstracted'
    g = ck.graph(G(p, p.find('abstracted', 'IfaceImpl')))
    PID = ['CommitId::commit_id($2)', 'Iface::iface_id($2)']
    yes = ['contains($1.inherits, %s)' % x for x in PID]
    no = ['!' + x for x in yes]
    ck.hold(S, g.ret_only_if('Option::Some(*', yes), 'only for interfaces the base inherits from')
    ck.hold(S, g.ret_only_if('Option::None', no), 'always for interfaces the base inherits from')
    lists = ['metadata', 'global_state', 'assignments', 'valencies', 'transitions', 'extensions', 'errors']
    some = [field(r, '0') for _, r in g.rets() if m(r, 'Option::Some(*')]
    ck.ob(S, bool(some), 'an implementation for the parent is given')
    names = [f[0] for f in p.adts[p.adt('IfaceImpl')]['variants'][0]['fields']]
    for t in some:
        for f in names:
            v = field(t, f)
            if f in lists:
                ck.ob(S, m(v, ['empty<>+<add(each($0.%s))>' % f, '$0.%s+<retain(*' % f, '$0.%s' % f]) or show(v) == '$0.' + f, 'entries of %s are those of the implementation: %s' % (f, cutstr(show(v))))
            elif f == 'iface_id':
                ck.ob(S, m(v, PID), 'the interface is the parent: %s' % show(v))
            else:
                ck.ob(S, show(v) == '$0.' + f, 'nothing else changes: %s is %s' % (f, cutstr(show(v))))
    isret = lambda n, e: e is None and n.ret is not None and m(n.ret, 'Option::Some(*')
    for k in lists:
        own, base, par = '$0.' + k, '$1.' + k, '$2.' + k
        put = lambda e, own=own: e.name == 'add' and m(e.args[-1], 'each(%s)' % own)
        ck.ob(S, any(put(e) for e in g.events('add')), 'entries of %s are kept' % k)
        nested = bool(g.edges(['next ' + base]))
        key = 'each(%s).0' % base if nested else 'each(%s).name' % own
        kn, un = known(par, key)
        eq, ne = eqs('each(%s).name' % own, key) if nested else ([], [])
        kn2, un2 = known(par, 'each(%s).name' % own)
        start = [t for _, t, _ in g.edges(['next ' + (base if nested else own)])]
        hit = lambda n, e, put=put: e is not None and put(e)
        for pos in ([kn + kn2, eq] if nested else [kn]):
            w = g.reach(start, hit, None, lambda l, pos=pos: lm(l, pos) or lm(l, ['next ' + base]))
            ck.ob(S, bool(start) and w is None, 'an entry of %s is kept only if %s' % (k, pos[0]), w and g.describe(w))
        ck.hold(S, g.foreach(own, put, unless=un + un2 + ne, complete=not nested, target=isret), 'every entry of %s the parent knows is kept' % k)
        if nested:
            ck.hold(S, g.foreach(base, put, unless=un + ['end ' + own], target=isret), 'every name of %s is looked for' % k)
