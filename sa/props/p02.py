"""stock: failed changes are rolled back"""
from rules import *
from props.p01 import STOP, PARTS, mutators, typestate, iserr, roots, arg0

RULE = '''Typestate analysis over the MIR of the transaction helper and of every mutating method which runs a transaction on its
own: on every path returning an error, each store whose transaction was begun has been rolled back; each failing step is
one obligation. A rollback of a store must be able to return.'''
FLOOR = 9


def check(ck):
    p = ck.p
    muts = mutators(p)
    n = 0
    fns = [(f, PARTS, '$0.') for f in roots(p) if f.name in ('store_transaction', 'import_kit')]
    # methods with transactions of their own, everything outside of the shared helper
    seen = {f.h for f, _, _ in fns}
    for t in ('Stash', 'State', 'Index', 'MemStash', 'MemState', 'MemIndex'):
        a = p.adt(t)
        for f in p.fns.values():
            if f.selfadt != a or f.h in seen or f.name.endswith('_transaction'):
                continue
            b = p.body(f)
            if b and b.argc and b.locals[1].startswith('&mut'):
                g = G(p, f, STOP + ['StashWriteProvider::*', 'StateWriteProvider::*', 'IndexWriteProvider::*', '*::resolve_pub_witness_ord', 'Persisting::*', 'MergeReveal::*', 'AnchorSet::*', 'TypedAssigns*::*'])
                if g.events('StoreTransaction::begin_transaction'):
                    fns.append((f, ('',), '$0'))
    for f, rts, base in fns:
        S = p.short(f) if f.selfadt != p.adt('Stock') else 'Stock::' + f.name
        g = ck.graph(G(p, f, STOP + ['StashWriteProvider::*', 'StateWriteProvider::*', 'IndexWriteProvider::*', '*::resolve_pub_witness_ord', 'Persisting::*'] if base == '$0' else STOP))
        n += 1
        steps(ck, g, S, muts, rts, base)
    ck.ob('transactions', n >= 4, '%d functions with transactions are analysed' % n)
    for t in ('MemStash', 'MemState', 'MemIndex'):
        g = ck.graph(G(p, p.find('rollback_transaction', t, 'StoreTransaction'), ['Persisting::*']))
        ck.ob(t + '::rollback_transaction', bool(g.rets()), 'the store can be rolled back')


def steps(ck, g, S, muts, rts, base):
    """each failing step leads to an error return with all begun stores closed"""
    fails = {}

    def ev(s, e):
        if e.kind != 'call' or not e.name.startswith('StoreTransaction::'):
            return s
        d, last = dict(s[0]), s[1]
        r = where(e.args[0], rts, base)
        d[r] = {'begin': 'begun', 'commit': 'committed', 'rollback': 'closed'}[e.name.split('::')[1].split('_')[0]]
        return (tuple(sorted(d.items())), last)

    def edge(s, l):
        t = lit(l)
        d, last = dict(s[0]), s[1]
        if t.endswith(' is Err') and l[0] == 'is':
            name = t.split('(')[0]
            if name.startswith('StoreTransaction::'):
                r = where(arg0(l[1]), rts, base)
                name = name.split('::')[1].replace('_transaction', '') + (' of the ' + r if r else '')
                d[r] = None if name.startswith('begin') else 'begun' if d.get(r) == 'committed' else d.get(r)
                d = {k: v for k, v in d.items() if v}
            elif name == 'call':
                name = 'the change'
            last = name
        return (tuple(sorted(d.items())), last)
    for node, (s, last) in walk(g, ((), ''), ev, edge):
        if iserr(node.ret):
            fails.setdefault(last or 'a check', []).append([k for k, v in s if v != 'closed'])
    for name, left in sorted(fails.items()):
        x = sorted({k or 'store' for l in left for k in l})
        ck.ob('%s: failure of %s' % (S, name), not x, 'all begun stores are rolled back; left open: %s' % ', '.join(x))


def where(t, rts, base):
    s = show(t)
    for r in rts:
        if s.startswith(base + r):
            return r
    return s
