"""stores: a failed step is reported"""
import fnmatch
from rules import *
from engine import RES

RULE = '''MIR of every function of the stock, stash, state, index and of their in-memory and file stores, including closures; calls of
other functions are steps which may fail. On every path from a fallible step (a call giving a result, a
size-limited collection changed) to a successful return the result of the step was found to be a success, or is itself returned.
Tolerated are only searches for something which may be absent, and signatures, which the store is free not to keep.'''
ASSUMPTIONS = ['failures inside iterators given out to the caller are seen by the caller']
FLOOR = 319
DIRS = ('src/persistence/',)
# looking for something which may be absent
PROBES = ['StashReadProvider::*', 'Stash::genesis', 'Stash::extension', 'Stash::bundle', 'Stash::witness', 'Stash::iface', 'Stash::supplement', 'Stock::contract_iface_class',
          'TransitionBuilder::default_assignment']
# signatures are kept as far as there is room for them
SIGS = ['*::import_sigs']


def failed(l):
    return l[0] == 'is' and l[2] == 'Err' and isinstance(l[1], Term)


def name_of(t):
    for x in alts(t):
        if x.op == 'call':
            return str(x.a[0]).split('#')[0]
        if x.op == 'upd':
            return 'collecting'
    return None


def exempt(fn, callee):
    return pm(callee, PROBES + SIGS) or pm(fn, SIGS)


def pm(s, pats):
    return any(fnmatch.fnmatchcase(s, q) for q in pats)


def recorded(res):
    """the failure is kept for the caller"""
    bad = show(res) + '@Err'
    return lambda e: e.kind == 'call' and e.name == 'add' and bad in show(e.args[1])


def check(ck):
    p = ck.p
    fns = sorted((f for f in p.fns.values() if not f.derived and 'Visitor' not in f.path and str(f.j['loc'][0]).startswith(DIRS)), key=lambda f: f.path)
    ck.ob('stores', len(fns) > 300, 'the functions of the stores are analysed: %d' % len(fns))
    for f in fns:
        site = p.short(f)
        g = ck.graph(G(p, f, ['*'], bare=True))
        own = f.path.split('::{closure')[0].rsplit('::', 1)[-1]

        def success(z, x):
            if x is not None or z.ret is None:
                return False
            return mays(z.ret, 'Result::Ok(*') or not any(y.op == 'agg' and y.a[0] == RES for y in alts(z.ret))
        for n in g.nodes:
            for e in n.events:
                if e.kind != 'call' or not str(e.ty).split('<')[0].endswith('result::Result') or exempt('::' + own, e.name):
                    continue
                if e.res is None:
                    continue

                def found(l):
                    return l[0] == 'is' and l[2] == 'Ok' and isinstance(l[1], Term) and any(y is e.res for y in alts(l[1]))
                w = g.reach([n], lambda z, x: success(z, x) and not any(y is e.res for y in alts(z.ret)), recorded(e.res), found)
                ck.ob(site, w is None, 'a failure of %s is reported' % e.name, w and g.describe(w), e.loc)
            for t, ls in n.succ:
                for l in ls:
                    if not failed(l):
                        continue
                    nm = name_of(l[1])
                    if nm is None or exempt('::' + own, nm):
                        continue
                    w = g.reach([t], success, recorded(l[1]))
                    ck.ob(site, w is None, 'a failure of %s is reported' % nm, w and g.describe(w))
