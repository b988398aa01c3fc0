"""equality, order and hash of the types of the library"""
import re
from rules import *

RULE = '''All types of the library with an equality, an order or a hash are enumerated. Derived ones use all fields. For each
written by hand the components of the two objects it compares are extracted from every path in MIR: equality must hold
exactly if all components are equal, the order must say "equal" only then and otherwise give the order of a component which
differs, the partial order must be the total one, and the hash must be computed from nothing else than the components of the
equality. The components of the equality and those of the order must be the same; types with an identifier use it.'''
FLOOR = 150

# what the objects are told apart by
IDENTITY = {
    'PubWitness': [['{$0@Txid | Tx::txid($0@Tx)}', 'PubWitness::txid($0)']],
    'WitnessBundle': [['$0.pub_witness']],
    'TransitionInfo': [['$0.id']],
    'Iface': [['CommitId::commit_id($0)*']],
    'OutputAssignment': [['$0.opout'], ['$0.seal']],
    'Ticker': [['str::to_uppercase($0.0)', 'str::to_ascii_uppercase($0.0)', 'str::to_lowercase($0.0)', 'str::to_ascii_lowercase($0.0)']],
}
WRAP = re.compile(r'^(?:Array::as_slice|Array::to_byte_array|Array::as_ref|ByteArray::to_byte_array|\w+::as_slice|\w+::to_byte_array|AsRef::as_ref)\((.*)\)$')


def plain(s):
    """a component without views of its bytes"""
    while True:
        x = WRAP.match(s)
        if x:
            s = x.group(1)
        elif s.endswith('.0') and not re.search(r'\$\d\.0$', s):
            s = s[:-2]
        else:
            return s


def swap(s):
    return s.replace('$0', '$#').replace('$1', '$0').replace('$#', '$1')


def pair(x, y):
    """component of the first object which is compared with the same one of the second; None if it isn't"""
    a, b = plain(show(x)), plain(show(y))
    if '$0' in a and '$1' not in a and b == a.replace('$0', '$1'):
        return a, True
    if '$1' in a and '$0' not in a and b == swap(a):
        return b, False
    return None


def pairs(t):
    """components compared by an equality or order term, tuples taken apart; None if it is another term"""
    if t.op == 'and':
        a, b = pairs(t.a[0]), pairs(t.a[1])
        return None if a is None or b is None else a + b
    if t.op == 'eq':
        x, y = t.a
    elif t.op == 'call' and t.a[0] in ('cmp', 'Ord::cmp', 'PartialOrd::partial_cmp') and len(t.a) == 3:
        x, y = t.a[1:]
    else:
        return None
    if x.op == 'agg' and y.op == 'agg' and x.a[0] == y.a[0] == '()':
        out = []
        for (_, p), (_, q) in zip(x.a[2], y.a[2]):
            r = pair(p, q)
            if r is None:
                return None
            out.append(r)
        return out
    r = pair(x, y)
    return None if r is None else [r]


def known(hist, eqkeys):
    """components known to be equal and to differ, from the tests passed"""
    same, diff = set(), set()
    for l in hist:
        if l[0] != 'b':
            if l[0] in ('is', 'isnot') and l[1].op == 'call' and 'cmp' in l[1].a[0]:
                ks = pairs(l[1])
                if ks and l[0] == 'is':
                    (same if l[2] == 'Equal' else diff).update(k for k, _ in ks if l[2] == 'Equal' or len(ks) == 1)
                elif ks and l[2] == 'Equal' and len(ks) == 1:
                    diff.add(ks[0][0])
            continue
        if l[1].op == 'and' and not l[2]:
            continue
        if l[1].op not in ('eq', 'and'):
            continue
        if l[1].op == 'eq' and {show(x) for x in l[1].a} == {'$0', '$1'}:
            if l[2]:
                same |= set(eqkeys or ())
            continue
        ks = pairs(l[1])
        if ks and l[2]:
            same |= {k for k, _ in ks}
        elif ks and len(ks) == 1:
            diff.add(ks[0][0])
    return same, diff


def graph(ck, fn):
    return ck.graph(G(ck.p, fn, split=lambda l: l[0] == 'b' and l[1].op in ('eq', 'and') or l[0] in ('is', 'isnot') and l[1].op == 'call' and 'cmp' in l[1].a[0]))


def equality(ck, S, fn):
    """components which are compared; None with an obligation failed if it isn't the equality of components"""
    g = graph(ck, fn)
    rets = [(n, a) for n, t in g.rets() for a in alts(t)]
    ck.ob(S, bool(rets), 'the equality has a result')
    keys = set()
    for n, a in rets:
        if show(a) == 'false':
            keys |= known(n.hist, ())[1]
        elif show(a) != 'true':
            ks = pairs(a)
            if not ck.ob(S, ks is not None, 'the equality compares the same component of both: %s' % cutstr(show(a))):
                return None
            keys |= {k for k, _ in ks}
    ok = bool(keys)
    for n, a in rets:
        same, diff = known(n.hist, ())
        if show(a) == 'true':
            ok = ok and keys <= same
        elif show(a) == 'false':
            ok = ok and bool(keys & diff)
        else:
            ok = ok and keys <= same | {k for k, _ in pairs(a)}
    if not ok:
        S = S + ': ' + either(rets)
    if not ck.ob(S, ok, 'objects are equal exactly if all compared components are'):
        return None
    return keys


def either(rets):
    """how an equality which isn't one of all components decides"""
    keys = {k for n, _ in rets for x in known(n.hist, ()) for k in x} | {k for _, a in rets for k, _ in pairs(a) or ()}
    for n, a in rets:
        same, diff = known(n.hist, ())
        if not (same if show(a) == 'true' else keys <= diff if show(a) == 'false' else keys <= diff | {k for k, _ in pairs(a)}):
            return 'equality'
    return 'equal if any of ' + ', '.join(sorted(k[3:] for k in keys))


def order(ck, S, fn, what, eqkeys, part):
    g = graph(ck, fn)
    rets = [(n, a) for n, t in g.rets() for a in alts(t)]
    ck.ob(S, bool(rets), 'the %s has a result' % what)
    keys = set()
    todo = []
    for n, t in rets:
        if part:
            if t.op == 'agg' and t.a[1] == 'Some':
                todo += [(n, a) for a in alts(field(t, '0'))]
            elif t.op == 'call' and t.a[0] == 'PartialOrd::partial_cmp':
                todo.append((n, t))
            else:
                ck.ob(S, False, 'the partial order is always decided: %s' % cutstr(show(t)))
        else:
            todo.append((n, t))
    for n, a in todo:
        same, diff = known(n.hist, eqkeys)
        if show(a) in ('Ordering::Equal', 'Equal'):
            ck.ob(S, eqkeys is not None and eqkeys <= same, 'the %s says equal only if all components of the equality are: %s' % (what, cutstr(show(a))))
            continue
        ks = pairs(a)
        if not ck.ob(S, ks is not None, 'the %s is the order of the same component of both: %s' % (what, cutstr(show(a)))):
            return None
        ck.ob(S, all(fw for _, fw in ks), 'the %s is not reversed: %s' % (what, cutstr(show(a))))
        mine = {k for k, _ in ks}
        keys |= mine
        if eqkeys is not None:
            ck.ob(S, bool(mine & diff) or eqkeys <= same | mine, 'the %s tells apart what is not equal: %s' % (what, cutstr(show(a))))
    return keys


def fields(ck, adt):
    return {'$0.' + f[0] for v in ck.p.adts[adt]['variants'] for f in v['fields']}


def check(ck):
    p = ck.p
    types = {}
    for f in p.fns.values():
        tr = (f.trait or '').split('::')[-1].split('<')[0]
        if f.crate in ('rgbstd', 'rgbinvoice', 'invoice') and f.selfadt and (tr, f.name) in (
                ('PartialEq', 'eq'), ('Ord', 'cmp'), ('PartialOrd', 'partial_cmp'), ('Hash', 'hash')):
            types.setdefault(f.selfadt, {}).setdefault(f.name, []).append(f)
    byhand = 0
    for adt, fs in sorted(types.items()):
        name = adt.split('::')[-1]
        fs = {k: v[0] for k, v in fs.items()}
        hand = [k for k, f in fs.items() if not f.derived]
        S = name
        if not hand:
            ck.ob(S, True, 'equality, order and hash use all fields')
            continue
        byhand += 1
        whole = fields(ck, adt) if ck.p.adts[adt]['kind'] == 'struct' else {'$0'}
        eq = whole
        if 'eq' in hand:
            eq = equality(ck, S, fs['eq'])
            if eq is None:
                continue
        if name in IDENTITY:
            ck.ob(S, len(eq) == len(IDENTITY[name]) and all(any(m2(k, alt) for k in eq) for alt in IDENTITY[name]),
                  'the objects are told apart by what identifies them: %s' % ', '.join(sorted(eq)))
        for k, what in (('cmp', 'order'), ('partial_cmp', 'partial order')):
            if k not in fs:
                continue
            keys = order(ck, S, fs[k], what, eq, k == 'partial_cmp') if k in hand else whole
            if keys is not None:
                ck.ob(S, keys == eq, 'equality and %s use the same components: %s; %s' % (what, ', '.join(sorted(eq)), ', '.join(sorted(keys))))
        if 'hash' in fs and 'hash' not in hand:
            ck.ob(S, eq == whole, 'equality and hash use the same components: %s; %s' % (', '.join(sorted(eq)), ', '.join(sorted(whole))))
        elif 'hash' in fs:
            g = ck.graph(G(p, fs['hash']))
            ev = [e for e in g.events(kind='call') if e.name.split('::')[0] in ('Hash', 'Hasher') or e.name.endswith('::hash')]
            ck.ob(S, bool(ev), 'the hash depends on the object')
            for e in ev:
                for a in e.args:
                    s = show(a)
                    if s.startswith('$1'):  # the hasher
                        continue
                    for k in sorted(eq, key=len, reverse=True):
                        s = s.replace(k, '_')
                    ck.ob(S, '$0' not in s and '$' not in s, 'the hash is computed from the components compared: %s' % cutstr(show(a)), loc=e.loc)
    ck.ob('types', byhand >= 6, 'types with comparisons written by hand: %d' % byhand)


def m2(k, alts_):
    return any(k == a or a.endswith('*') and k.startswith(a[:-1]) for a in alts_)
