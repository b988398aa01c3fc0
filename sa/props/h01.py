"""history of a contract"""
import re
from rules import *

RULE = '''From MIR: the history of each kind of state is made of all its allocations accepted by the filter of own outputs,
grouped by witness, and of all accepted by the filter of own witnesses, grouped by witness. Allocations on own outputs
without witness are issued; for each witness of either group there are: received entries exactly for own outputs if the
witness is not an own one, sent entries exactly for the allocations of an own witness which are not on own outputs. Entries
carry direction, type, operations, seals, state and witness of exactly their allocations: one entry for each allocation,
or for fungible state one entry for each type with the total amount. The complete history consists of the histories of all
four kinds with the same filters.'''
FLOOR = 30
S0 = 'call($1, $0.state)'
X = 'each(%s)' % S0
TOTAL = r'AllocatedState::Amount\((Amount\()?0\+<(acc\((\S*add\(hole<>, (conv:Amount\()?%(a)s\)?(\.0)?\)|\(hole<> Add %(a)s\.0\)|\(%(a)s\.0 Add hole<>\))\)(; )?)+>\)?\)'
DIRS = ('Issued', 'Sent', 'Received')


def mapkind(t):
    """whether a map groups by optional (own outputs) or by actual witness (own witnesses)"""
    if t.op != 'upd':
        return None
    mt = re.match(r'(?:empty|hole)<>\+<(?:acc\(hole<>\[\[|add\(\()each\(call\(\$1, \$0\.state\)\)\.witness(@Some)?(?:\]|, )', show(t))
    return mt and ('WIT' if mt.group(1) else 'OUT')


def got(t):
    """(map, key) of a lookup"""
    if t.op == 'pay':
        t = t.a[0]
    if t.op == 'call' and t.a[0] == 'get':
        return t.a[1], t.a[2]
    if t.op == 'get':
        return t.a[0], t.a[1]
    return None


def same_items(t, src):
    if t.op == 'upd' and not (t.a[0].op == 'empty' and {op[0] for op in t.a[1]} == {'add'}
                              and all(x.op == 'elem' and classify(x.a[0]) == classify(src) for op in t.a[1] for x in alts(op[1]))):
        return False
    return split(t) is None and classify(t) is not None and classify(t) == classify(src)


def norm(t):
    return show(t).replace('hole<>', 'empty<>')


def split(t):
    """set X if t is a part of X grouped by type"""
    if not (t.op == 'field' and t.a[1] == '1' and t.a[0].op == 'elem'):
        return None
    return split_upd(t.a[0].a[0])


def split_upd(t):
    if t.op != 'upd' or mapkind(t):
        return None
    out = []

    def walk(x, d=0):
        if isinstance(x, Term):
            if x.op == 'field' and x.a[1] == 'ty' and x.a[0].op == 'field' and x.a[0].a[1] == 'opout' and x.a[0].a[0].op == 'elem':
                out.append(x.a[0].a[0].a[0])
                return
            for y in x.a:
                walk(y, d + 1)
        elif isinstance(x, (tuple, list, frozenset)):
            for y in x:
                walk(y, d + 1)
    for y in t.a[1:]:
        walk(y)
    out = [x for x in out if 'hole<>' not in show(x)[:12] and not show(x).startswith('get(hole<>')] or out
    return min(out, key=show) if out else None


def classify(t):
    s = split(t)
    if s is not None:
        return classify(s)
    if t.op == 'call' and (t.a[0].endswith('::difference') or t.a[0].endswith('::sub')):
        a, b = classify(t.a[1]), classify(t.a[2])
        return ('diff', a, b)
    if t.op == 'upd' and t.a[0].op == 'empty':      # copied item by item
        for op in t.a[1]:
            if op[0] == 'add' and isinstance(op[1], Term) and op[1].op == 'elem':
                return classify(op[1].a[0])
    g = got(t)
    if g:
        mk = mapkind(g[0])
        k = show(g[1])
        return (mk, 'none' if k == 'Option::None' else 'w')
    return None


def constructors(ck):
    """functions making entries: name -> (direction, position of the set, fungible)"""
    p = ck.p
    out = {}
    adt = p.adt('ContractOp')
    for f in p.fns.values():
        if f.selfadt != adt or f.trait or '{closure' in f.path or 'OwnedAllocation' not in str(f.j['sig']) and 'HashSet' not in str(f.j['sig']):
            continue
        S = p.short(f)
        g, gs = seq(ck, f)
        ents = []
        for n, r in g.rets():
            for a in alts(r):
                if a.op == 'agg' and 'ContractOp' in show(a)[:12]:
                    ents.append((g, a, True))
        for h in gs:
            for e in h.events('add'):
                if e.args[1].op == 'agg' and show(e.args[1]).startswith('ContractOp'):
                    ents.append((h, e.args[1], False))
        ck.ob(S, len(ents) == 1, 'one kind of entries is made: %d' % len(ents))
        for h, a, fung in ents:
            mt = re.search(r'each\((\$\d)\)', show(field(a, 'to')))
            s = mt.group(1) if mt else '$?'
            w = '$0' if s == '$1' else '$1'
            e = 'each(%s)' % s
            d = show(field(a, 'direction')).split('::')[-1]
            ck.ob(S, mt is not None and d in DIRS, 'the entry has a direction: %s' % d)
            ck.ob(S, m(field(a, 'opids'), 'empty<>+<add(%s.opout.op)>' % e), 'operations are those of the allocations: %s' % show(field(a, 'opids')))
            ck.ob(S, m(field(a, 'to'), 'empty<>+<add(%s.seal)>' % e), 'seals are those of the allocations: %s' % show(field(a, 'to')))
            ck.ob(S, m(field(a, 'witness'), 'Option::None' if d == 'Issued' else 'Option::Some(%s)' % w),
                  'the witness is the one given: %s' % show(field(a, 'witness')))
            ty, st = field(a, 'ty'), field(a, 'state')
            if fung:
                ck.ob(S, m(ty, ['reduced(Map{iter: %s, f: *})@Some' % s, 'reduced(Map{iter: Map{iter: %s, f: *}, f: *})@Some' % s, e + '.opout.ty']), 'the type is that of the allocations: %s' % show(ty))
                am = '%s.state@Amount' % e
                ck.ob(S, re.fullmatch(TOTAL % {'a': re.escape(am)}, show(st))
                      is not None, 'the amount is the total: %s' % show(st))
                for q in (e + '.opout.op', e + '.seal'):
                    ck.hold(S, h.foreach(s, E('add', None, q)), 'every allocation counts')
                skip = [ev for ev in h.events() if re.match(r'Iterator::(skip|take|step_by|filter|nth)', ev.name)]
                ck.ob(S, not skip, 'no allocation is left out')
                rd = h.edges(['next ' + s])
                ck.ob(S, len({n.id for n, _, _ in rd}) >= 3, 'operations, seals and amounts are gathered')
                other = [l for _, _, ls in h.edges(lambda l: True) for l in ls
                         if not lm(l, ['next ' + s, 'end ' + s, '%s.state is*' % e, 'reduced(*', '*opout.ty*'])]
                ck.ob(S, not other, 'nothing else decides: %s' % sorted({cutstr(lit(l)) for l in other}))
            else:
                ck.ob(S, m(ty, e + '.opout.ty'), 'the type is that of the allocation: %s' % show(ty))
                ck.ob(S, m(st, e + '.state'), 'the state is that of the allocation: %s' % show(st))
                ck.hold(S, h.foreach(s, E('add', None, 'ContractOp*')), 'there is an entry for every allocation')
            out[f.name] = (d, int(s[1]) if s[1:].isdigit() else 0, fung)
    return out


def check(ck):
    p = ck.p
    cons = constructors(ck)
    ck.ob('ContractOp', {(d, f) for d, _, f in cons.values()} == {(d, f) for d in DIRS for f in (True, False)},
          'there are fungible and other entries of each direction: %s' % sorted(cons))
    S = 'ContractIface::operations'
    fn = p.find('operations', 'ContractIface')
    g = ck.graph(G(p, fn, ['ContractOp::' + n for n in cons]))
    # the groups
    for flt, key, what in (('$2', X + '.witness', 'own outputs'), ('$3', X + '.witness@Some', 'own witnesses')):
        inc = ['AssignmentsFilter::should_include(%s, %s, %s.witness)' % (flt, o % X, X) for o in ('%s.seal', 'conv:XOutpoint(%s.seal)')]
        items = ['OutputAssignment{opout: %s.opout, seal: %s.seal, state: conv:*(%s.state), witness: %s.witness}' % (X, X, X, X), X]
        put = lambda e, key=key, items=items: e.name == 'add' and e.dst is not None and len(e.dst.keys) == 1 and show(e.dst.keys[0]) == key and m(e.args[1], items)
        adds = [e for e in g.events('add') if put(e)]
        ck.ob(S, bool(adds), 'allocations of %s are gathered by witness' % what)
        ck.hold(S, g.only_if(put, inc), 'an allocation is of %s only if the filter says so' % what)
        src = {n.id for n, _, _ in g.edges(['next ' + S0])}
        heads = {n.id for n, t, ls in g.edges(['next ' + S0]) if g.reach([t], lambda n, e: e is not None and put(e), None, None,
                                                                         lambda a, b: b.id in src)}
        ck.ob(S, bool(heads), 'allocations are gone through for %s' % what)
        x = g.reach([t for n, t, ls in g.edges(['next ' + S0]) if n.id in heads],
                    lambda n, e: e is None and (n.id in heads or n.ret is not None), put,
                    lambda l: lm(l, ['!' + i for i in inc]))
        ck.ob(S, x is None, 'every allocation the filter accepts is of %s' % what, x and g.describe(x))
    # witnesses
    ws = [e for e in g.events('add') if is_key(e.args[1])] or within(g, 'OUT')
    ck.ob(S, bool(ws), 'witnesses of own outputs are gone through')
    for e in ws[:1]:
        mp = show(e.args[1].a[0].a[0].a[0]) if is_key(e.args[1]) else over(g, 'OUT')
        ck.hold(S, g.foreach(mp, lambda x: x in ws, unless=['each(%s).0 is None' % mp, X + '.witness is None']), 'no witness of own outputs is left out')
    for e in ([e for e in g.events('add') if len(e.args) == 2 and is_wkey(e.args[1]) and e.args[1].op == 'field'] or within(g, 'WIT'))[:1]:
        mp = show(e.args[1].a[0].a[0]) if e.args[1].op == 'field' else over(g, 'WIT')
        ck.hold(S, g.foreach(mp, lambda x: len(x.args) == 2 and x.name == 'add' and is_wkey(x.args[1])), 'no own witness is left out')
    # entries
    calls = [e for e in g.events() if e.kind == 'call' and e.name.startswith('ContractOp::') and e.name.split('::')[1] in cons]
    ck.ob(S, bool(calls), 'entries are made')
    lk = lambda kind, key, val: (lambda l: l[0] == 'is' and l[2] == val and got(l[1]) is not None and mapkind(got(l[1])[0]) == kind
                                 and (show(got(l[1])[1]) == 'Option::None') == (key == 'none'))
    FUN = 'const<rgbstd::contract::assignments::KnownState::IS_FUNGIBLE, bool>'
    shapes = set()
    for e in calls:
        d, i, fung = cons[e.name.split('::')[1]]
        c = classify(e.args[i])
        want = {'Issued': [('OUT', 'none')], 'Received': [('OUT', 'w')],
                'Sent': [('WIT', 'w'), ('diff', ('WIT', 'w'), ('OUT', 'w'))]}[d]
        ck.ob(S, c in want, '%s entries are made of the right allocations: %s' % (d.lower(), c), loc=e.loc)
        shapes.add((d, c, fung))
        me = lambda x, e=e: x is e
        ck.hold(S, g.only_if(me, [FUN if fung else '!' + FUN]), '%s entries are made for %sfungible state' % (d.lower(), '' if fung else 'non-'))
        if d == 'Received':
            ck.hold(S, g.only_if(me, lk('WIT', 'w', 'None')), 'nothing is received from an own witness')
        if d == 'Sent' and c and c[0] == 'WIT':
            ck.hold(S, g.only_if(me, lk('OUT', 'w', 'None')), 'own outputs are not sent')
        if d != 'Issued':
            w = e.args[1 - i]
            ok = w.op == 'agg' and m(field(w, 'ord'), 'ContractStateRead::witness_ord($0.state, *)@Some')
            ks = [got(x)[1] for x in lookups(e.args[i]) if got(x)]
            same = [norm(k) in (norm(field(w, 'id')), 'Option::Some(%s)' % norm(field(w, 'id'))) for k in ks] if ok else []
            ck.ob(S, ok and all(same), 'the witness is described')
        src = split(e.args[i])
        if fung and src is not None:
            mp = e.args[i].a[0].a[0]
            ck.hold(S, g.foreach(show(mp), me, complete=False), 'there is an entry for each type')
            put = lambda x, src=src: x.name == 'add' and x.dst is not None and len(x.dst.keys) == 1 and all(y.op == 'elem' and same_items(y.a[0], src) for y in alts(x.args[1])) \
                and {norm(k) for k in alts(x.dst.keys[0])} == {norm(y) + '.opout.ty' for y in alts(x.args[1])}
            srcs = {show(l[1]) for _, _, ls in g.edges(lambda l: l[0] == 'some') for l in ls if l[0] == 'some' and same_items(l[1], src)}
            # plain copies of the items are not the sorting
            copied = {show(y.a[0]) for x in g.events('add') if x.dst is not None and not x.dst.keys for y in alts(x.args[1]) if y.op == 'elem'}
            srcs = srcs - copied or srcs
            ck.hold(S, g.foreach(sorted(srcs), put, complete=False), 'every allocation belongs to the entry of its type')
        elif fung:
            ck.ob(S, False, 'fungible allocations are put together by type: %s' % cutstr(show(e.args[i])))
    ck.ob(S, len(shapes) >= 8, 'entries of all kinds are made: %d' % len(shapes))
    heads = {n.id for n, t, ls in g.edges(lambda l: l[0] == 'some')}

    rec = walk_entries(g, calls, cons, lk)
    for what, bad in rec:
        ck.ob(S, bad is None, what, bad and g.describe(bad))
    # each entry made becomes part of the result
    for e in calls:
        d, i, fung = cons[e.name.split('::')[1]]
        r = [x for x in g.events('add') if e.name in show(x.args[1])[:80] or any(e.name in show(a)[:90] for a in alts(x.args[1]))]
        ck.ob(S, bool(r), 'the entry is added to the history: %s' % e.name)
        if fung:
            x = g.reach([e.node], lambda n, ev: ev is None and (n.ret is not None or n.id in heads), lambda ev: ev.name == 'add' and any(e.name in show(a)[:90] for a in alts(ev.args[1])))
            ck.ob(S, x is None, 'the entry is not dropped: %s' % e.name, x and g.describe(x))
    # all kinds
    S = 'ContractIface::history'
    kinds = {'fungible': 'fungible_all', 'rights': 'rights_all', 'data': 'data_all', 'attach': 'attach_all'}
    h = ck.graph(G(p, p.find('history', 'ContractIface'), ['ContractIface::operations']))
    used = {}
    for k, acc in kinds.items():
        T = 'ContractIface::history_' + k
        q = ck.graph(G(p, p.find('history_' + k, 'ContractIface'), ['ContractIface::operations']))
        for _, r in q.rets():
            ok = r.op == 'call' and r.a[0] == 'ContractIface::operations' and [show(r.a[1])] + [show(x) for x in r.a[3:]] == ['$0', '$1', '$2']
            ck.ob(T, ok, 'the history is made with the filters given: %s' % cutstr(show(r)))
            ck.ob(T, ok and reads(ck, r.a[2]) == 'ContractStateRead::%s($0)' % acc, 'it is the history of %s: %s' % (k, reads(ck, r.a[2]) if ok else ''))
    got_ = []
    for e in h.events('ContractIface::operations'):
        ck.ob(S, [show(e.args[0])] + [show(x) for x in e.args[2:]] == ['$0', '$1', '$2'], 'the filters are passed on')
        got_.append(reads(ck, e.args[1]))
    ck.ob(S, sorted(map(str, got_)) == sorted('ContractStateRead::%s($0)' % a for a in kinds.values()), 'all kinds of state are part of the history: %s' % got_)
    for _, r in h.rets():
        n = show(r).count('add(each(ContractIface::operations(') + show(r).startswith('ContractIface::operations(')
        ck.ob(S, n == 4 and 'Iterator::' not in show(r), 'the histories are joined: %s' % cutstr(show(r)))


def lookups(t):
    out = []

    def go(x, d):
        if d > 6:
            return
        if isinstance(x, Term):
            s = split(x)
            if s is not None:
                return go(s, d + 1)
            if got(x) and mapkind(got(x)[0]):
                out.append(x)
                return
            for y in x.a:
                go(y, d + 1)
    go(t, 0)
    return out


def walk_entries(g, calls, cons, lk):
    """for each witness the entries due are made"""
    out = []
    issued = [t for _, t, ls in g.edges(lk('OUT', 'none', 'Some'))]
    info = {id(e): (cons[e.name.split('::')[1]][0], classify(e.args[cons[e.name.split('::')[1]][1]])) for e in calls}
    emp = lambda l: l[0] == 'b' and l[2] and none_left(l[1]) or l[0] == 'none' and split_over(l[1])
    bad = g.reach(issued, lambda n, e: e is None and n.ret is not None, lambda e: info.get(id(e)) == ('Issued', ('OUT', 'none')), emp)
    out.append(('allocations of genesis are listed', bad if issued else [g.a.entry]))
    loop = g.edges(lambda l: l[0] == 'some' and witnesses(l[1]))
    heads, starts = {n.id for n, _, _ in loop}, [t for _, t, _ in loop]
    for what, a, b, want in (
            ('own outputs of a foreign witness are received', 'Some', 'None', [('Received', ('OUT', 'w'))]),
            ('allocations of an own witness without own outputs are sent', 'None', 'Some', [('Sent', ('WIT', 'w'))]),
            ('allocations of an own witness not on own outputs are sent', 'Some', 'Some', [('Sent', ('diff', ('WIT', 'w'), ('OUT', 'w')))])):
        na = {'Some': 'None', 'None': 'Some'}
        # leave the other outcomes of the two lookups out
        cut = lambda l, a=a, b=b: lk('OUT', 'w', na[a])(l) or lk('WIT', 'w', na[b])(l) or emp(l)
        q = lambda e, want=want: id(e) in info and info[id(e)] in want
        bad = g.reach(starts, lambda n, e: e is None and (n.ret is not None or n.id in heads), q, cut)
        ok = bool(starts) and any(w in info.values() for w in want)
        out.append((what, bad if ok else (bad or [g.a.entry])))
    return out


def witnesses(t):
    """set of the witnesses of own outputs, and of others"""
    adds = [op[1] for op in t.a[1] if op[0] == 'add'] if t.op == 'upd' and mapkind(t) is None else []
    plain = [x for x in adds if show(x) == X + '.witness@Some']
    return any(is_key(x) for x in adds) and any(is_wkey(x) for x in adds) or bool(plain) and all(is_key(x) or is_wkey(x) or show(x) == '⊤bottom' for x in adds)


def over(g, kind):
    """the map of a kind which is gone through"""
    return next((show(l[1]) for _, _, ls in g.edges(lambda l: l[0] == 'some' and mapkind(l[1]) == kind) for l in ls if l[0] == 'some'), '?')


def within(g, kind):
    """events gathering the witnesses while the map of a kind is gone through, if its keys are known as those of the items"""
    return [e for e in g.events('add') if len(e.args) == 2 and e.dst is not None and not e.dst.keys and show(e.args[1]) == X + '.witness@Some'
            and g.only_if(lambda x: x is e, lambda l: l[0] == 'some' and mapkind(l[1]) == kind)[0]]


def is_wkey(t):
    """witness by which allocations of own witnesses are grouped"""
    return any(show(x) == X + '.witness@Some' or x.op == 'field' and x.a[0].op == 'elem' and show(x).endswith('.0')
               and mapkind(x.a[0].a[0]) == 'WIT' for x in alts(t))


def is_key(t):
    """witness by which own outputs are grouped"""
    return isinstance(t, Term) and t.op == 'pay' and re.match(r'each\((?:empty|hole)<>\+<.*\)\.0@Some$', show(t)) is not None \
        and mapkind(t.a[0].a[0].a[0]) == 'OUT'


def none_left(t):
    """the difference of the two groups is empty"""
    return show(t).startswith('(0 == len(') and any((classify(x) or [''])[0] == 'diff' for x in subterms(t))


def split_over(t):
    """end of the loop over types of a non-empty set: at least one round was made"""
    return split_upd(t) is not None


def reads(ck, c):
    """what a closure or function given as source of allocations returns"""
    p = ck.p
    key = str(c.a[0]) if c.op in ('agg', 'fn') else ''
    f = next((x for x in p.fns.values() if x.h and x.h in key), None)
    if f is None:
        return show(c)
    a = [c] if '{closure' in f.path else []
    k = ck.graph(G(p, f))
    rs = {show(r).replace('$1', '$0') if a else show(r) for _, r in k.rets()}
    return rs.pop() if len(rs) == 1 else str(sorted(rs))
