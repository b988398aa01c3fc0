"""extension of interfaces"""
from rules import *

RULE = '''From MIR, with helpers inlined: extending an interface (or one of its operations) with another reports exactly every global state
whose type differs, every global state, assignment and valency which is no longer required, every assignment whose state is not a special case of the
original or which is no longer public, every operation which is final or does not override, every lower minimum of an operation's
argument, every replaced default and every collection which became too large; it succeeds exactly if nothing was reported and returns
all reports otherwise. In the result every collection has all entries of the extension, entries of the original of other names are not touched,
the original, what the extension inherits and the extension are added to the ancestors, the name is the one given, and no other field changes.
The tables of state inclusion and of modifiers are those of the definitions. Inheriting
from several interfaces extends the first one by each of the others in turn and fails with the conflicts of any of them.'''
ASSUMPTIONS = ['an operation new in the extension which is optional may be left out',
               'metadata and error messages defined by both take either definition',
               'the modifier and the optionality of an operation extended are not decided']
FLOOR = 200
X = 'ExtensionError::'
FULL = ['Confined::insert(*) is Err', 'Confined::push(*) is Err', 'Confined::extend(*) is Err', 'Confined::try_*) is Err']


def both(a, b, na='!'):
    """a holds and b does not, tested one after the other or at once"""
    w = ['!and<%s, !%s>' % (a, b), '!and<!%s, %s>' % (b, a)]
    return [([a], ['!' + a] + w), (['!' + b], [b] + w)]


def got(f, e):
    return 'get($0.%s*, %s.0)' % (f, e)


def has(f, e):
    y, n = known('$0.%s*' % f, e + '.0')
    return (y, n)


def isok(n, e):
    return e is None and n.ret is not None and not (n.ret.op == 'agg' and n.ret.a[1] == 'Err')


def fault(e):
    return e.name == 'add' and any(a.op == 'agg' and show(a).startswith(X) or m(a, 'each(*extended(*)@Err*)') for a in alts(e.args[-1]))


def merge(ck, S, g, f, keyed, item=None):
    """every entry of the collection of the extension comes into the result"""
    src = '$1.' + f
    e = 'each(%s)' % src
    it = item or ('(%s.0, %s.1)' % (e, e) if keyed else e)
    it = aslist(it)
    if keyed and not item:
        it = it + [e]
    put = lambda ev: ev.name == 'add' and m(ev.args[0], ['$0.%s' % f, '$0.%s+<*' % f]) and (m(ev.args[-1], it) or len(ev.args) == 3 and m(mk('tuple', *ev.args[1:]), it)) or \
        ev.kind == 'put' and not ev.name and m(ev.args[0], '$0.%s*' % f) and show(ev.args[1]) == e + '.0' and any(m(ev.args[2], x.split(', ', 1)[1][:-1]) for x in it if ', ' in x)
    whole = lambda ev: ev.name == 'extend' and m(ev.args[0], ['$0.%s' % f, '$0.%s+<*' % f]) and show(ev.args[1]) in (src, it[0])
    if g.events('extend', pred=whole):
        w = g.reach([g.a.entry], isok, lambda ev: whole(ev) or fault(ev))
        ck.ob(S, w is None, 'all %s of the extension are taken' % f, w and g.describe(w))
        return
    drop = ['%s.1.optional' % e, '*::extended(*%s.0) is Err' % e] if item else []
    ck.hold(S, g.foreach(src, lambda ev: put(ev) or fault(ev), unless=drop, complete=False, target=isok), 'each of %s of the extension is taken' % f)
    w = g.reach([g.a.entry], isok, fault, lambda l: lm(l, ['end ' + src]))
    ck.ob(S, w is None, 'all %s of the extension are looked at' % f, w and g.describe(w))
    # nothing else is done to the collection
    for ev in g.events(['add', 'remove', 'clear', 'retain', 'extend', 'pop']):
        if m(ev.args[0], ['$0.%s' % f, '$0.%s+<*' % f]):
            ok = put(ev) or ev.name == 'remove' and show(ev.args[1]) == e + '.0' and item
            ck.ob(S, ok, '%s change only by the entries of the extension: %s' % (f, cutstr(show(ev.args[-1]))), loc=ev.loc)


def result(ck, S, g, adt, keep, vals):
    """fields of the result"""
    p = ck.p
    oks = [field(r, '0') for _, r in g.rets() if r.op == 'agg' and r.a[1] == 'Ok']
    ck.ob(S, bool(oks), 'there is a result')
    for t in oks:
        for f in [x[0] for x in p.adts[p.adt(adt)]['variants'][0]['fields']]:
            if f in keep:
                continue
            v = field(t, f)
            want = vals.get(f, ['$0.' + f])
            if f[:3] == 'def':
                want = want + ['Option::Some($1.%s@Some)' % f]
            for a in alts(v):
                ck.ob(S, m(a, want), '%s of the result is %s' % (f, cutstr(show(a))))
    for f in vals:
        if f[:3] in ('def', 'gen'):
            seen = {show(a) for t in oks for a in alts(field(t, f))}
            ck.ob(S, len(seen) > 1, '%s of the result comes from both' % f, [str(seen)])


def default(ck, S, g, f, item):
    """a default is added but not replaced"""
    a, b = '$0.' + f, '$1.' + f
    same, other = eqs(a, b)
    s2, o2 = eqs(a + '@Some', b + '@Some')
    same, other = same + s2, other + o2
    report(ck, S, g, item, [([b + ' is Some'], [b + ' is None']), ([a + ' is Some'], [a + ' is None']), (other, same)])


def op(ck, adt, name, maps, sets):
    p = ck.p
    S = adt + '::extended'
    g = ck.graph(G(p, p.find('extended', adt)))
    items = []

    def rep(it, conds, **kw):
        items.append(it)
        report(ck, S, g, it, conds, **kw)
    fin = ['$0.modifier is Final']
    nofin = ['$0.modifier isnot Final', '$0.modifier is Abstract', '$0.modifier is Override']
    abst = ['$1.modifier is Abstract']
    over = ['$1.modifier isnot Abstract', '$1.modifier is Override', '$1.modifier is Final']
    rep('%sOpFinal(%s)' % (X, name), [(fin, nofin)])
    rep('%sOpNoOverride(%s)' % (X, name), [(nofin, fin), (abst, over)])
    vals = {}
    for f, what in maps:
        e = 'each($1.%s)' % f
        o = got(f, e) + '@Some'
        lo, hi = 'Occurrences::min_value(%s.1)' % e, 'Occurrences::min_value(%s)' % o
        rep("%sOpOcc(%s, '%s', %s.0)" % (X, name, what, e), [has(f, e), (['(%s < %s)' % (lo, hi)], ['!(%s < %s)' % (lo, hi)])],
            src='$1.' + f, excuse=FULL)
        merge(ck, S, g, f, True)
        vals[f] = ['$0.%s+<add((%s.0, %s.1))>' % (f, e, e), '$0.%s+<add(%s)>' % (f, e)]
        items.append("%sOpOverflow(%s, '%s')" % (X, name, what))
    for f, what in sets:
        e = 'each($1.%s)' % f
        merge(ck, S, g, f, False)
        vals[f] = ['$0.%s+<add(%s)>' % (f, e)]
        items.append("%sOpOverflow(%s, '%s')" % (X, name, what))
    keep = {'modifier', 'optional'}
    if adt != 'GenesisIface':
        it = '%sOpDefaultOverride(%s)' % (X, name)
        items.append(it)
        default(ck, S, g, 'default_assignment', it)
        vals['default_assignment'] = ['$0.default_assignment', '$1.default_assignment']
    overflow(ck, S, g)
    result(ck, S, g, adt, keep, vals)
    verdict(ck, S, g, 'ExtensionError', items)


def overflow(ck, S, g):
    """a collection which became too large is reported, and only that"""
    bad = g.edges(FULL)
    ck.ob(S, bool(bad), 'too large collections are noticed')
    w = g.reach([t for _, t, _ in bad], isok, fault)
    ck.ob(S, w is None, 'a collection which became too large is reported', w and g.describe(w))
    of = lambda n, e: e is not None and e.name == 'add' and m(e.args[-1], ['*Overflow', '*Overflow(*'])
    w = g.reach([g.a.entry], of, None, lambda l: lm(l, FULL))
    ck.ob(S, w is None, 'only a collection which became too large is reported as such', w and g.describe(w))
    # by the name of the collection
    names = {'metadata': ('MetaOverflow', 'metadata'), 'global_state': ('GlobalOverflow',), 'globals': ('global',), 'assignments': ('AssignmentOverflow', 'assignment'),
             'inputs': ('input',), 'redeems': ('input',), 'valencies': ('ValencyOverflow', 'valency'), 'errors': ('ErrorOverflow', 'error'),
             'transitions': ('TransitionOverflow',), 'extensions': ('ExtensionOverflow',), 'inherits': ('InheritanceOverflow',)}
    for f, ns in names.items():
        lits = ['Confined::%s($0.%s%s*) is Err' % (k, f, c) for k in ('insert', 'push', 'extend', 'try_insert', 'try_push') for c in (',', '+')]
        es = g.edges(lits)
        right = lambda e: e.name == 'add' and m(e.args[-1], [X + n for n in ns] + ["%sOpOverflow(*, '%s')" % (X, n) for n in ns])
        hit = lambda n, e: e is None and n.ret is not None or e is not None and of(n, e) and not right(e)
        w = g.reach([t for _, t, _ in es], hit, right)
        ck.ob(S, w is None, 'too many %s are reported as such' % f, w and g.describe(w))


def check(ck):
    p = ck.p
    M, T = [('globals', 'global'), ('assignments', 'assignment')], [('metadata', 'metadata'), ('valencies', 'valency'), ('errors', 'error')]
    op(ck, 'GenesisIface', 'OpName::Genesis', M, T)
    op(ck, 'TransitionIface', 'OpName::Transition($2)', M + [('inputs', 'input')], T)
    op(ck, 'ExtensionIface', 'OpName::Extension($2)', M, T + [('redeems', 'input')])
    whole(ck)
    tables(ck)
    several(ck)


def several(ck):
    """an interface extended by others in turn"""
    p, S = ck.p, 'Iface::inherit'
    g = ck.graph(G(p, p.find('inherit', 'Iface'), ['Iface::extended']))
    ext = g.events('Iface::extended')
    ck.ob(S, bool(ext), 'the interfaces are extended')
    for e in ext:
        ck.ob(S, m(e.args[1], 'each($1)') and m(e.args[2], ['$0', 'conv:TypeName($0)']), 'with one of the given interfaces, under the given name: %s' % cutstr(show(e.args[1]) + ', ' + show(e.args[2])), loc=e.loc)
        ck.ob(S, show(e.args[0]).startswith('⊤') or 'Iface::extended(' in show(e.args[0]) and any(m(a, 'each($1)') for a in flat(e.args[0])), 'what is extended is the first one or the result of the extension before', loc=e.loc)
    for _, r in g.rets():
        for a in alts(r):
            if a.op == 'agg' and a.a[1] == 'Ok':
                x = show(field(a, '0'))
                ck.ob(S, x.startswith('⊤') or 'Iface::extended(' in x, 'the result of the last extension is given: %s' % cutstr(x))
    loops = 0
    for n, t, ls in g.edges(['next $1']):
        if g.reach([t], lambda x, e: x is n) is None:
            continue
        loops += 1
        w = g.reach([t], lambda x, e: x is n or e is not None and e.kind == 'ret' and not show(e.args[0]).startswith('Result::Err'), lambda e: e in ext)
        ck.ob(S, w is None, 'each further interface is added', w and g.describe(w))
    ck.ob(S, loops > 0, 'all interfaces are gone through')
    failed = [t for n in g.nodes for t, ls in n.succ if any(l[0] == 'is' and l[2] == 'Err' and 'Iface::extended(' in show(l[1]) for l in ls)]
    ck.ob(S, bool(failed), 'conflicts are noticed')
    w = g.reach(failed, lambda x, e: e is not None and e.kind == 'ret' and not show(e.args[0]).startswith('Result::Err') or e in ext)
    ck.ob(S, w is None, 'a conflict makes it fail', w and g.describe(w))
    for e in g.events('add'):
        a = e.args[1]
        if a.op == 'agg' and str(a.a[0]).endswith('InheritError'):
            ck.ob(S, all(m(x, 'each($1).name') for x in alts(field(a, 'iface'))), 'the conflict names the interface: %s' % show(field(a, 'iface')), loc=e.loc)
            ck.ob(S, all(x.op == 'elem' for x in alts(field(a, 'err'))), 'the conflict is the one reported', loc=e.loc)
    for nm, call in (('expect_inherit', 'Iface::inherit($0, $1)'), ('expect_extended', 'Iface::extended($0, $1, $2)')):
        g = ck.graph(G(p, p.find(nm, 'Iface'), ['Iface::extended', 'Iface::inherit']))
        for _, r in g.rets():
            ck.ob('Iface::' + nm, m(r, [call + '@Ok', call.replace('$0', 'conv:TypeName($0)') + '@Ok', call.replace('$2', 'conv:TypeName($2)') + '@Ok']), 'gives the result: %s' % cutstr(show(r)))


def flat(t, n=0):
    if t.op == 'phi':
        return [y for x in t.a[0] for y in flat(x, n + 1)] if n < 12 else []
    return [t]


def parts(e):
    """what an addition adds to the list"""
    if e.name == 'add':
        return [show(a) for a in alts(e.args[-1])]
    t, out = e.args[-1], []
    if t.op == 'upd':
        out = [show(a) for o in t.a[1] for a in (alts(o[1]) if o[0] == 'add' else [mk('str', '?' + o[0])])]
        t = t.a[0]
    if t.op == 'agg':
        return out + [show(x) for _, x in t.a[2]]
    return out + ([] if t.op == 'empty' else ['each(%s)' % show(t)])


def whole(ck):
    p = ck.p
    S = 'Iface::extended'
    g = ck.graph(G(p, p.find('extended', 'Iface'), ['GenesisIface::extended', 'TransitionIface::extended', 'ExtensionIface::extended', 'OwnedIface::is_superset']))
    items = []

    def rep(it, conds, **kw):
        items.append(it)
        report(ck, S, g, it, conds, excuse=FULL, **kw)
    vals = {}
    for f, pre in (('global_state', 'Global'), ('assignments', 'Assignment'), ('valencies', 'Valency')):
        src = '$1.' + f
        e = 'each(%s)' % src
        o = got(f, e) + '@Some'
        first = [has(f, e)]
        if f == 'global_state':
            same, other = eqs(e + '.1.sem_id', o + '.sem_id')
            s2, o2 = eqs(e + '.1.sem_id', 'Option::Some(%s.sem_id@Some)' % o)
            rep('%sGlobalType(%s.0)' % (X, e), first + [([o + '.sem_id is Some'], [o + '.sem_id is None']), (other + o2, same + s2)], src=src)
            first.append((same + s2 + [o + '.sem_id is None'], other + o2))
        if f == 'assignments':
            sup = 'OwnedIface::is_superset(%s.owned_state, %s.1.owned_state)' % (o, e)
            rep('%sAssignmentType(%s.0)' % (X, e), first + [(['!' + sup], [sup])], src=src)
            first.append(([sup], ['!' + sup]))
        req = both(o + '.required', e + '.1.required')
        rep('%s%sOcc(%s.0)' % (X, pre, e), first + req, src=src)
        if f == 'assignments':
            pub = both(o + '.public', e + '.1.public')
            rep('%sAssignmentPublic(%s.0)' % (X, e), first + [(req[0][1] + req[1][1], req[1][0])] + pub, src=src)
        merge(ck, S, g, f, True)
        vals[f] = ['$0.%s+<add((%s.0, %s.1))>' % (f, e, e), '$0.%s+<add(%s)>' % (f, e)]
    for f in ('metadata', 'errors'):
        merge(ck, S, g, f, True)
        vals[f] = ['$0.%s+<add(each($1.%s))>' % (f, f), '$0.%s+<add((each($1.%s).0, each($1.%s).1))>' % (f, f, f)]
    ext = {}
    for f, T in (('transitions', 'TransitionIface'), ('extensions', 'ExtensionIface')):
        e = 'each($1.%s)' % f
        call = '%s::extended(get($0.%s*, %s.0)@Some, %s.1, %s.0)' % (T, f, e, e, e)
        new, ed = '(%s.0, %s.1)' % (e, e), '(%s.0, %s@Ok)' % (e, call)
        merge(ck, S, g, f, True, [new, ed])
        # new operations are added as they are, others as extended
        y, n = has(f, e)
        nx = ['next $1.' + f]
        start = [t for _, t, _ in g.edges(nx)]
        for it, pos, what in ((new, n, 'new'), (ed, y, 'known')):
            hit = lambda n_, ev, it=it: ev is not None and (ev.name == 'add' and m(ev.args[-1], it) or ev.kind == 'put' and m(mk('tuple', *ev.args[1:]), it))
            w = g.reach(start, hit, None, lambda l, pos=pos: lm(l, pos) or lm(l, nx))
            ck.ob(S, bool(start) and w is None, 'operations of %s added so are %s' % (f, what), w and g.describe(w))
        ext[f] = call
    gen = 'GenesisIface::extended($0.genesis, $1.genesis)'
    for f, call in list(ext.items()) + [('genesis', gen)]:
        # what the extension of the operation reports is reported
        errs = g.edges([call + ' is Err'])
        ck.ob(S, bool(errs), 'problems of %s are noticed' % f)
        srcs = {l[1] for _, _, ls in g.edges(lambda l: l[0] in ('some', 'none')) for l in ls if l[0] in ('some', 'none') and any(m(a, call + '@Err') for a in alts(l[1]))}
        took = lambda e: e.name == 'add' and any(m(a, 'each(%s@Err)' % call) for a in alts(e.args[-1])) or e.name == 'extend' and any(m(a, call + '@Err') for a in alts(e.args[-1]))
        ends = lambda l: l[0] == 'none' and l[1] in srcs
        w = g.reach([t for _, t, _ in errs], isok, lambda e: e.name == 'extend' and took(e), ends)
        ck.ob(S, w is None, 'problems of %s are reported' % f, w and g.describe(w))
        for t in srcs:
            ck.hold(S, g.foreach(show(t), took, complete=False, target=isok), 'every problem of %s is reported' % f)
        ck.ob(S, any(took(e) for e in g.events(['add', 'extend'])), 'problems of %s come into the list' % f)
    vals['genesis'] = [gen + '@Ok', '$0.genesis']
    vals['name'] = ['$2', 'conv:*($2)']
    ids = [['CommitId::commit_id($%d)' % i, 'Iface::iface_id($%d)' % i] for i in (0, 1)]
    default(ck, S, g, 'default_operation', X + 'DefaultOverride')
    items.append(X + 'DefaultOverride')
    vals['default_operation'] = ['$0.default_operation', '$1.default_operation']
    # ancestors
    inh = lambda e: m(e.args[0], ['$0.inherits', '$0.inherits+<*'])
    more = ['each($1.inherits)']
    for it, what in ((ids[0], 'the original'), (ids[1], 'the extension'), (more, 'what the extension inherits')):
        w = g.reach([g.a.entry], isok, lambda e: fault(e) or e.name in ('add', 'extend') and inh(e) and any(x in it for x in parts(e)),
                    (lambda l: lm(l, ['end $1.inherits'])) if it is more else None)
        ck.ob(S, w is None, '%s becomes an ancestor' % what, w and g.describe(w))
    if g.edges(['next $1.inherits']):
        ck.hold(S, g.foreach('$1.inherits', lambda e: fault(e) or e.name == 'add' and m(e.args[-1], more), complete=False, target=isok), 'what the extension inherits becomes an ancestor')
    for e in g.events(['add', 'extend', 'remove', 'clear', 'retain', 'pop']):
        if inh(e):
            ck.ob(S, e.name in ('add', 'extend') and all(x in ids[0] + ids[1] + more for x in parts(e)), 'ancestors change only so: %s' % cutstr(show(e.args[-1])), loc=e.loc)
    overflow(ck, S, g)
    result(ck, S, g, 'Iface', {'inherits', 'transitions', 'extensions'}, vals)
    of = [X + n + 'Overflow' for n in ('Meta', 'Global', 'Assignment', 'Valency', 'Transition', 'Extension', 'Error', 'Inheritance')]
    moved = ['each(*extended(*)@Err*']
    verdict(ck, S, g, 'ExtensionError', items + of + [moved])


def tables(ck):
    p = ck.p
    f = p.find('can_be_overridden_by', 'Modifier')
    ms = [t for _, t in variant_terms(p, p.adt("Modifier"))]
    for a in ms:
        for b in ms:
            g = ck.graph(G(p, f, argterms=[a, b]))
            want = a.a[1] != 'Final' and b.a[1] != 'Abstract'
            rs = {show(r) for _, r in g.rets()}
            ck.ob('Modifier::can_be_overridden_by', rs == {'true' if want else 'false'}, '%s by %s: %s' % (a.a[1], b.a[1], rs))
        g = ck.graph(G(p, p.find('is_final', 'Modifier'), argterms=[a]))
        rs = {show(r) for _, r in g.rets()}
        ck.ob('Modifier::is_final', rs == {'true' if a.a[1] == 'Final' else 'false'}, '%s: %s' % (a.a[1], rs))
    f = p.find('is_superset', 'OwnedIface')
    vs = [t for _, t in variant_terms(p, p.adt("OwnedIface"))]
    for a in vs:
        for b in vs:
            g = ck.graph(G(p, f, argterms=[a, b]))
            rs = {show(r) for _, r in g.rets()}
            S = 'OwnedIface::is_superset'
            x, y = a.a[1], b.a[1]
            if x == y == 'Data':
                continue
            want = x == 'Any' or (x, y) == ('AnyData', 'Data') or x == y
            ck.ob(S, rs == {'true' if want else 'false'}, '%s of %s: %s' % (x, y, rs))
