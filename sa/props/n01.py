"""supplements"""
import re
from rules import *

RULE = '''The functions which read and write annotations of a supplement are evaluated over all of their paths with the nested maps
kept as terms: a read gives only the annotation found under the given subject, item and name and is empty only where one of
the three look-ups is; a write puts the data under exactly these three keys into what was there before, touches no other
key, and no path leads from a change of the supplement to an error. For the velocity the set of bytes which can reach each
return is computed along the graph of the function.'''
FLOOR = 35
T = 'Supplement'
NAME = ['conv:AnnotationName(%s)', '%s']


def nm(v):
    return [x % v for x in NAME]


def reads(ck, name, item, ni):
    p, S = ck.p, T + '::' + name
    g = ck.graph(G(p, p.find(name, T)))
    one = ['get($0.annotations, $1)']
    two = ['get(%s@Some.0, %s)' % (a, item) for a in one]
    three = ['get(%s@Some.0, %s)' % (a, b) for a in two for b in nm('$%d' % ni)]
    data = ['StrictDeserialize::from_strict_serialized(%s@Some)' % a for a in three]
    opt = name.endswith('_opt')
    some = ['Option::Some(%s%s)' % (d, '@Ok' if opt else '') for d in data] + ([d + '@Ok?' for d in data] if opt else [])
    none = [a + ' is None' for a in one + two + three] + ([d + ' is Err' for d in data] if opt else [])
    rs = [a for _, r in g.rets() for a in alts(r)]
    ck.ob(S, any(m(r, some) for r in rs), 'an annotation can be read')
    for r in rs:
        ck.ob(S, m(r, some + ['Option::None']), 'gives only what is stored in the place asked for: %s' % cutstr(show(r), 300))
    ck.hold(S, g.ret_only_if('Option::None', none), 'is empty only if there is nothing in the place asked for')
    ck.ob(S, not nopanic(g), 'does not panic')


def layer(t, bases, key, inner):
    """a map as it was, with only the entry of the key replaced by one accepted by inner"""
    ops = []
    while t.op == 'upd':
        ops += list(t.a[1])
        t = t.a[0]
    if not all(m(a, bases + ['default<>*', 'default:*', 'empty<>']) for a in alts(t)) or not any(m(a, bases) for a in alts(t)):
        return False
    adds = [o for o in ops if o[0] == 'add']
    if not adds or any(o[0] not in ('add', 'remove') for o in ops):
        return False
    if any(not m(o[1], key) for o in ops if o[0] == 'remove'):
        return False
    return all(m(field(o[1], '0'), key) and inner(field(o[1], '1')) for o in adds)


def writes(ck, name, sub, item, ni, di):
    p, S = ck.p, T + '::' + name
    g = ck.graph(G(p, p.find(name, T)))
    b1 = ['$0.annotations']
    b2 = ['get($0.annotations, %s)@Some.0' % sub, '$0.annotations[%s]*' % sub]
    b3 = ['get(*get($0.annotations, %s)@Some.0*, %s)@Some.0' % (sub, item), 'get($0.annotations[%s]*, %s)@Some.0' % (sub, item)]
    names = nm('$%d' % ni)
    data = ['StrictSerialize::to_strict_serialized($%d)@Ok' % di]

    def third(v):
        return layer(field(v, '0'), b3, names, lambda x: m(x, data))

    def second(v):
        return layer(field(v, '0'), b2, [item], third)

    def first(v):
        return layer(v, b1, [sub], second)
    put = [e for e in g.events('add') if e.args[1].op in ('agg', 'tuple') and m(field(e.args[1], '0'), names)]
    ck.ob(S, bool(put), 'annotations are stored')
    for e in put:
        ck.ob(S, m(field(e.args[1], '1'), data), 'the data given is stored: %s' % cutstr(show(e.args[1])), loc=e.loc)
    change = []
    for e in g.events(kind='store'):
        if show(e.args[0]) == '$0' or show(e.args[0]).startswith('$0.'):
            ok = e.name in ('.annotations', 'annotations') and first(e.args[-1])
            ck.ob(S, ok, 'only the entry of the given place is changed: %s' % cutstr(show(e.args[-1]), 300), loc=e.loc)
            change.append((e, None))
    for e in g.events(['add', 'remove', 'clear', 'retain', 'extend', 'pop']):
        d = e.dst or ''
        if not d.startswith('$0'):
            continue
        if e.name == 'add' and d == '$0.annotations':
            ok = m(field(e.args[1], '0'), [sub]) and second(field(e.args[1], '1'))
        elif e.name == 'add':
            ok = m(field(e.args[1], '0'), [item]) and third(field(e.args[1], '1')) or e in put or m(field(e.args[1], '0'), [sub])
        else:
            ok = e.name == 'remove' and m(e.args[1], [sub] if d == '$0.annotations' else [item] + names)
        ck.ob(S, ok, '%s of %s is limited to the given place' % (e.name, d), loc=e.loc)
        change.append((e, e.name == 'add'))
    ck.ob(S, bool(change), 'the supplement is changed')
    for e, fallible in change:
        own = {id(l) for n in g.nodes for _, ls in n.succ for l in ls if fallible and n is e.node}
        cut = (lambda l: id(l) in own and lit(l).endswith(' is Err')) if fallible else None
        seen, todo, bad = set(), [e.node], None
        while todo and not bad:
            n = todo.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            if n.ret is not None and any(mays(a, ['Result::Err(*']) for a in alts(n.ret)):
                bad = n
            for t, ls in n.succ:
                if not (cut and any(cut(l) for l in ls)):
                    todo.append(t)
        ck.ob(S, bad is None, 'nothing is changed before an error (%s of %s)' % (e.name, e.dst or 'the supplement'), loc=e.loc)
    failed = [t for n in g.nodes for t, ls in n.succ if any(l[0] == 'is' and l[2] == 'Err' and re.match(r'Confined::(insert|entry)|StrictSerialize', show(l[1])) for l in ls)]
    w = g.reach(failed, lambda n, e: e is not None and e.kind == 'ret' and m(e.args[0], 'Result::Ok(*'))
    ck.ob(S, w is None, 'a failed step is reported', w and g.describe(w))
    for n, r in g.rets():
        for a in alts(r):
            if a.op == 'agg' and a.a[1] == 'Ok':
                for x in okval(a):
                    ck.ob(S, all(m(y, ['(get(*, %s) is Some)' % k for k in names] + ['true', 'false']) for y in alts(x)), 'tells whether there was such an annotation: %s' % cutstr(show(x), 300))
    pts = [e for e, _ in change if e.kind == 'store' or e.name == 'add']
    w = g.reach([g.nodes[0]], lambda n, e: e is not None and e.kind == 'ret' and m(e.args[0], 'Result::Ok(*'), lambda e: e in pts)
    ck.ob(S, w is None, 'success means the supplement was changed', w and g.describe(w))
    w = g.reach([g.nodes[0]], lambda n, e: e is not None and e.kind == 'ret' and m(e.args[0], 'Result::Ok(*'), lambda e: e in put)
    ck.ob(S, w is None, 'success means the annotation was stored', w and g.describe(w))


LEVELS = [('Unspecified', 0), ('Seldom', 15), ('Episodic', 31), ('Regular', 63), ('Frequent', 127), ('HighFrequency', 255)]


def holds(s, v):
    """truth of a comparison with a constant, None if it is something else"""
    x = re.fullmatch(r'(!?)\((\$0|\d+) (==|<|<=|>|>=|!=) (\$0|\d+)\)', s)
    if not x or (x[2] == '$0') == (x[4] == '$0'):
        return None
    a, b = (v if y == '$0' else int(y) for y in (x[2], x[4]))
    r = {'==': a == b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '!=': a != b}[x[3]]
    return r != (x[1] == '!')


def velocity(ck):
    p, S = ck.p, 'VelocityHint::with_value'
    vs = {v['name']: v['discr'] for v in p.adts[p.adt('VelocityHint')]['variants']}
    ck.ob('VelocityHint', vs == dict(LEVELS), 'named levels: %s' % vs)
    g = ck.graph(G(p, p.find('with_value', 'VelocityHint')))
    at = {n.id: set() for n in g.nodes}
    at[g.nodes[0].id] = set(range(256))
    todo = [g.nodes[0]]
    unknown = set()
    while todo:
        n = todo.pop()
        for t, ls in n.succ:
            new = set(at[n.id])
            for l in ls:
                h = {v: holds(lit(l), v) for v in new}
                if any(x is None for x in h.values()):
                    unknown.add(lit(l))
                new = {v for v in new if h[v] is not False}
            if not new <= at[t.id]:
                at[t.id] |= new
                todo.append(t)
    ck.ob(S, not unknown, 'the levels are told apart by comparison with constants: %s' % sorted(unknown)[:3])
    got = {}
    for n, r in g.rets():
        ck.ob(S, len(alts(r)) == 1, 'each return gives one level: %s' % show(r))
        got.setdefault(show(r).split('::')[-1], set()).update(at[n.id])
    low = 0
    for name, top in LEVELS:
        ck.ob(S, got.get(name) == set(range(low, top + 1)), '%s is given for %d to %d: %s' % (name, low, top, cutstr(str(sorted(got.get(name, []))), 100)))
        low = top + 1


def check(ck):
    p = ck.p
    reads(ck, 'get', '$2', 3)
    reads(ck, 'get_default', 'SupplItem::Default', 2)
    reads(ck, 'get_default_opt', 'SupplItem::Default', 2)
    writes(ck, 'annotate', '$1', '$2', 3, 4)
    writes(ck, 'annotate_default', '$1', 'SupplItem::Default', 2, 3)
    writes(ck, 'annotate_itself', 'SupplSub::Itself', 'SupplItem::Default', 1, 2)
    g = ck.graph(G(p, p.find('new', T)))
    for _, r in g.rets():
        for f, w in (('content_id', ['conv:ContentRef($0)', '$0']), ('creator', ['conv:Identity($1)', '$1']), ('annotations', ['empty<>', 'default<*', 'default:*'])):
            ck.ob(T + '::new', m(field(r, f), w), '%s of a new supplement: %s' % (f, show(field(r, f))))
    velocity(ck)
