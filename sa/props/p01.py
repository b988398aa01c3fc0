"""stock: transactions over the three stores"""
from rules import *

RULE = '''Typestate analysis over the MIR of every mutating method of the stock (found by their receiver type), helpers and
closures inlined: a store is changed only between the begin and the commit of its own transaction, success is returned
only if every begun store was committed without error, and an error of begin, change or commit is returned. Saving,
loading and making persistent cover all three stores; beginning marks a store as changed and committing saves it.'''
FLOOR = 40
PARTS = ('stash', 'state', 'index')
STOP = ['StoreTransaction::*', 'Stash::*', 'State::*', 'Index::*', '*::split']
OWN = ('Stash::store_secret_seal', 'State::update_witnesses')
NOT = ('as_provider_mut', 'begin_transaction', 'commit_transaction', 'rollback_transaction')


def mutators(p):
    """mutating methods of the three parts"""
    out = set()
    for t in ('Stash', 'State', 'Index'):
        a = p.adt(t)
        for f in p.fns.values():
            b = f.selfadt == a and p.body(f)
            if b and b.argc and b.locals[1].startswith('&mut') and f.name not in NOT:
                out.add(p.short(f))
    return out


def part(t, roots=PARTS, base='$0.'):
    s = show(t)
    for r in roots:
        if s.startswith(base + r) and not s[len(base + r):len(base + r) + 1].isalnum():
            return r


def typestate(ck, g, muts, roots=PARTS, base='$0.'):
    """runs the automaton; yields (kind, text, loc)"""
    bad = []

    def ev(s, e):
        d = dict(s)
        if e.kind != 'call' or not e.args:
            return s
        k = e.name.split('::')[-1]
        if e.name.startswith('StoreTransaction::'):
            r = part(e.args[0], roots, base)
            if r is None:
                bad.append(('unknown store %s' % cutstr(show(e.args[0])), e.loc))
                return s
            d[r] = {'begin_transaction': 'begun', 'commit_transaction': 'committed', 'rollback_transaction': 'closed'}[k]
            return tuple(sorted(d.items()))
        if e.name in muts and e.name not in OWN:
            r = part(e.args[0], roots, base)
            if r is None or d.get(r) != 'begun':
                bad.append(('%s outside of a transaction' % e.name, e.loc))
        if e.name == 'call' or (e.name not in muts and e.name.startswith('call')):
            for a in e.args[1:]:
                r = part(a, roots, base)
                if r and d.get(r) != 'begun':
                    bad.append(('a change of the %s outside of a transaction' % r, e.loc))
        return s

    def edge(s, l):
        d = dict(s)
        t = lit(l)
        for k, to in (('begin_transaction', None), ('commit_transaction', 'begun')):
            if t.startswith('StoreTransaction::%s(' % k) and t.endswith(' is Err'):
                r = part(arg0(l[1]), roots, base)
                if r:
                    d[r] = to
                    return tuple(sorted((x, y) for x, y in d.items() if y))
        return s
    out = walk(g, (), ev, edge)
    return out, bad


def arg0(t):
    """first argument of a call term"""
    for x in t.a:
        if isinstance(x, tuple) and x and hasattr(x[0], 'op'):
            return x[0]
    for x in t.a:
        if hasattr(x, 'op'):
            return x
    return t


def isok(v):
    return any(x.op == 'agg' and x.a[1] == 'Ok' for x in alts(v))


def iserr(v):
    return any(x.op == 'agg' and x.a[1] == 'Err' for x in alts(v))


def roots(p):
    """mutating methods of the stock"""
    a = p.adt('Stock')
    for f in p.fns.values():
        b = f.selfadt == a and p.body(f)
        if b and b.argc and b.locals[1].startswith('&mut') and not f.name.startswith('as_'):
            yield f


def fallible(p, name, muts):
    if name in ('StoreTransaction::begin_transaction', 'StoreTransaction::commit_transaction', 'call'):
        return True
    return name in muts and any(p.short(f) == name and 'Result<' in p.body(f).locals[0] for f in p.fns.values() if f.name == name.split('::')[-1] and p.body(f))


def check(ck):
    p = ck.p
    muts = mutators(p)
    ck.ob('stores', len(muts) >= 8, 'the mutating methods of the stores are found: %s' % sorted(muts))
    n = 0
    for f in roots(p):
        if f.name in ('store', 'make_persistent'):
            continue
        S = 'Stock::' + f.name
        g = ck.graph(G(p, f, STOP))
        out, bad = typestate(ck, g, muts)
        n += 1
        ck.ob(S, not bad, 'stores are changed only within their transactions: %s' % '; '.join(sorted({b for b, _ in bad})), loc=bad[0][1] if bad else None)
        oks = 0
        for node, s in out:
            if isok(node.ret):
                oks += 1
                left = [k for k, v in s if v == 'begun' or v == 'closed']
                ck.ob(S, not left, 'success is returned only if all begun stores are committed: %s' % dict(s))
        ck.ob(S, oks > 0, 'the method can succeed')
        # errors of any step are returned
        steps = {x.name for nd in g.nodes for x in nd.events if x.kind == 'call' and fallible(p, x.name, muts)}
        for e in sorted(steps):
            q = E(e)
            st = [nd for nd in g.nodes if any(x.kind == 'call' and x.name == e for x in nd.events)]
            w = g.reach(st, lambda z, x: x is None and z.ret is not None and isok(z.ret) and not mays(z.ret, '*%s(*' % e), None,
                        lambda l: lm(l, '%s(* is Ok' % e))
            ck.ob(S, w is None, 'an error of %s is returned' % e, w and g.describe(w))
    ck.ob('Stock', n >= 6, '%d mutating methods are analysed' % n)
    # a transaction covers all three stores
    g = ck.graph(G(p, p.find('store_transaction', 'Stock'), STOP))
    S = 'Stock::store_transaction'
    for r in PARTS:
        for k in ('begin', 'commit'):
            q = lambda e: e.name == 'StoreTransaction::%s_transaction' % k and part(e.args[0]) == r
            ck.hold(S, g.must(q), 'success requires the %s of the %s' % (k, r))
        q = lambda e: e.name == 'StoreTransaction::begin_transaction' and part(e.args[0]) == r
        ck.hold(S, g.only_if(lambda e: e.name == 'call', [], q), 'the %s transaction is begun before the change' % r)
        q = lambda e: e.name == 'StoreTransaction::commit_transaction' and part(e.args[0]) == r
        w = g.reach([g.a.entry], lambda nd, e: e is not None and q(e), lambda e: e.name == 'call', None)
        ck.ob(S, w is None, 'the %s is committed after the change' % r, w and g.describe(w))
    # changes with a transaction of their own
    for t, f, ch in (('Stash', 'store_secret_seal', 'StashWriteProvider::add_secret_seal'), ('State', 'update_witnesses', 'StateWriteProvider::update_witnesses')):
        S = t + '::' + f
        g = ck.graph(G(p, p.find(f, t), ['StashWriteProvider::*', 'StateWriteProvider::*', 'StoreTransaction::*']))
        ck.hold(S, g.must(E(ch)), 'the store is changed')
        chg = E(ch)
        if t == 'State':
            S = 'MemState::update_witnesses'
            g = ck.graph(G(p, p.find(f, 'MemState', 'StateWriteProvider'), ['*::resolve_pub_witness_ord', 'StoreTransaction::*', 'Persisting::*']))
            chg = lambda e: e.kind != 'other' and ('.witnesses' in e.name or '.witnesses' in str(getattr(e, 'dst', '')))
            ck.ob(S, bool(g.events(pred=chg)), 'the statuses are changed')
        ck.hold(S, g.only_if(chg, ['StoreTransaction::begin_transaction($0*) is Ok']), 'the store is changed only within a transaction')
        ck.hold(S, g.must(lits=['StoreTransaction::commit_transaction($0*) is Ok']), 'success is returned only if the change is committed')
        w = g.reach([nd for nd in g.nodes if any(x.kind == 'call' and x.name == 'StoreTransaction::commit_transaction' for x in nd.events)], lambda z, x: x is not None and chg(x), None, None)
        ck.ob(S, w is None, 'nothing is changed after the commit', w and g.describe(w))
    # persistence of the whole stock
    S = 'Stock::store'
    g = ck.graph(G(p, p.find('store', 'Stock'), ['Persisting::*']))
    for r in PARTS:
        ck.hold(S, g.must(lambda e: e.name == 'Persisting::store' and part(e.args[0]) == r), 'the %s is saved' % r)
        ck.hold(S, g.never_after(['Persisting::store($0.%s* is Err' % r], target=lambda z, x: x is None and z.ret is not None and isok(z.ret)), 'a failure to save the %s is returned' % r)
    S = 'Stock::make_persistent'
    g = ck.graph(G(p, p.find('make_persistent', 'Stock'), ['Persisting::*']))
    for r in PARTS:
        ck.hold(S, g.must(lambda e: e.name == 'Persisting::make_persistent' and part(e.args[0]) == r and m(e.args[1], '$1') and m(e.args[2], '$2')), 'the %s is made persistent' % r)
        ck.hold(S, g.never_after(['Persisting::make_persistent($0.%s* is Err' % r], target=lambda z, x: x is None and z.ret is not None and isok(z.ret)), 'a failure to save the %s is returned' % r)
    S = 'Stock::load'
    g = ck.graph(G(p, p.find('load', 'Stock'), ['Persisting::*']))
    for _, r in g.rets():
        for v in okval(r):
            for x in PARTS:
                ck.ob(S, m(field(field(v, x), 'provider'), 'Persisting::load($0, $1)@Ok'), 'the %s is loaded: %s' % (x, cutstr(show(field(v, x)))))
    ck.ob(S, len(g.events('Persisting::load')) == 3, 'three stores are loaded')
    # in-memory stores
    for t in ('MemStash', 'MemState', 'MemIndex'):
        g = ck.graph(G(p, p.find('begin_transaction', t, 'StoreTransaction'), ['Persisting::*']))
        ck.hold(t, g.must(E('Persisting::mark_dirty', '$0')), 'beginning a transaction marks the store as changed')
        g = ck.graph(G(p, p.find('commit_transaction', t, 'StoreTransaction'), ['Persisting::*']))
        ck.hold(t, g.must(E('Persisting::store', '$0')), 'committing a transaction saves the store')
        ck.hold(t, g.must(lits=['Persisting::store($0) is Ok']), 'a failure to save is returned')
        # saving is skipped for a store which says it was not changed
        own = [f for f in p.by_name.get('is_dirty', ()) if str(f.selfadt).endswith('::' + t)]
        ck.ob(t, len(own) == 1, 'a change is noticed with and without automatic saving (is_dirty)')
        for f in own:
            g = ck.graph(G(p, f))
            for n, r in g.rets():
                if all(m(a, ['true', '$0.persistence@Some.dirty', '(*$0.persistence@Some.dirty BitOr *', '(* BitOr $0.persistence@Some.dirty*']) for a in alts(r)):
                    continue
                w = g.reach([g.nodes[0]], lambda z, x, n=n: x is None and z is n, None, lambda l: lm(l, ['!$0.persistence@Some.dirty', '$0.persistence is None', '!($0.persistence is Some)']))
                ck.ob(t, w is None, 'a changed store is saved: is_dirty may be %s' % cutstr(show(r)), w and g.describe(w))
    for t, o in (('Stash', 'stash'), ('State', 'state'), ('Index', 'index')):
        for k in ('begin', 'commit', 'rollback'):
            f = k + '_transaction'
            g = ck.graph(G(p, p.find(f, t, 'StoreTransaction'), ['path:*StoreTransaction*']))
            ck.hold(t, g.must(E('StoreTransaction::' + f, '$0.provider')), '%s reaches the store' % f)
            if k != 'rollback':
                ck.hold(t, g.must(lits=['StoreTransaction::%s($0.provider) is Ok' % f]), 'an error of %s is returned' % f)
