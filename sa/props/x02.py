"""index reading"""
from rules import *

RULE = '''MIR of the in-memory index readers, helpers and closures inlined. Every returned identifier is stored under the queried
key (the condition guarding the place where it is taken), every identifier stored under a queried key is taken before a
success is returned (loops are exhausted, and no matching entry is skipped), and a missing record leads only to the error
of that lookup. The forwarding layer returns the same result and the same error.'''
FLOOR = 28
R = 'IndexReadProvider'


def check(ck):
    p = ck.p
    # contracts with state on an output
    S = 'contracts_assigning'
    _, gs = seq(ck, p.find(S, 'MemIndex', R), okres=True)
    ck.ob(S, len(gs) == 1, 'one enumeration')
    cs = '$0.contract_index'
    oo = 'each(%s).1.outpoint_opouts' % cs
    at = 'XChain::to_outpoint(each(%s).0)' % oo
    on = eq(at, 'each($1)') + ['contains($1, %s)' % at]
    for g in gs:
        adds = g.events('add')
        for e in adds:
            ck.ob(S, m(e.args[1], 'each(%s).0' % cs), 'contract ids are listed: %s' % show(e.args[1]), loc=e.loc)
        ck.hold(S, g.only_if(E('add'), on), 'a contract is listed only if a queried output carries its state')
        ck.hold(S, inloop(g, cs, g.events('add'), on), 'the output is looked for within the listed contract')
        hc = heads(g, cs)
        ck.ob(S, bool(g.edges(on)), 'seals are compared with the queried outputs')
        ck.hold(S, g.after(on, E('add'), target=lambda n, e: e is None and (n.id in hc or n.ret is not None)),
                'a contract with state on a queried output is listed')
        ck.hold(S, g.foreach(cs, None), 'all contracts are considered')
        nested = [(oo, '$1'), ('$1', oo)] if g.edges(['next $1']) else [(oo, None)]
        wit = None
        for a, b in nested:
            ha = heads(g, a)
            r = g.after(['next ' + cs], E('add'), unless=['end ' + a] + on,
                        target=lambda n, e: e is None and (n.id in hc or n.ret is not None))
            if r[0] and b:
                r = g.after(['next ' + a], E('add'), unless=['end ' + b] + on,
                            target=lambda n, e: e is None and (n.id in ha or n.id in hc or n.ret is not None))
            if r[0]:
                wit = None
                break
            wit = wit or r[1]
        ck.ob(S, wit is None, 'all seals of a contract are compared with all queried outputs', wit)
        ck.ob(S, bool(g.edges(['next ' + oo])), 'all seals of a contract are considered')
    # state on outputs
    S = 'opouts_by_outputs'
    g = ck.graph(G(p, p.find(S, 'MemIndex', R)))
    c = 'get($0.contract_index, $1)'
    oo = c + '@Some.outpoint_opouts'
    q = 'conv:XOutpoint(each($2))'
    at = 'XChain::to_outpoint(each(%s).0)' % oo
    item = 'each(each(%s).1)' % oo
    gather(ck, S, g, oo, 'each(%s).1' % oo, item, eq(at, q))
    ck.hold(S, g.foreach('$2', None), 'all queried outputs are considered')
    h = heads(g, '$2')
    ck.hold(S, g.after(['next $2'], None, unless=eq(at, q), target=lambda n, e: e is None and (n.id in h or g._okt()(n, None))),
            'an output without state is an error')
    ck.hold(S, g.after(['next $2'], None, unless=['end ' + oo], target=lambda n, e: e is None and (n.id in h or g._okt()(n, None))),
            'all seals are compared with each queried output')
    w = g.reach([t for _, t, _ in g.edges(eq(at, q))], lambda n, e: e is None and n.ret is not None and mays(n.ret, '*OutpointUnknown*'), None, lambda l: lm(l, 'next $2'))
    ck.ob(S, w is None, 'an output with state is not refused', w and g.describe(w))
    ck.hold(S, g.must(lits=[c + ' is Some']), 'an unknown contract is an error')
    errs(ck, S, g, {'ContractAbsent($1)': [c + ' is None'], 'OutpointUnknown(%s, $1)' % q: ['end ' + oo]})
    # state on secret seals
    S = 'opouts_by_terminals'
    g = ck.graph(G(p, p.find(S, 'MemIndex', R)))
    if g.edges(['next $0.terminal_index']):
        src, key = '$0.terminal_index', 'each($0.terminal_index).0'
        on = ['contains($1, %s)' % key] + eq(key, 'each($1)')
        gather(ck, S, g, src, 'each(%s).1' % src, 'each(each(%s).1)' % src, on)
        if not g.edges(['next $1']):
            ck.hold(S, g.foreach(src, None), 'all known secret seals are considered')
    else:
        got = 'get($0.terminal_index, each($1))'
        for e in g.events('add'):
            ck.ob(S, m(e.args[1], ['each(%s@Some)' % got, 'each($1)']), 'only stored items are returned: %s' % show(e.args[1]))
        ck.hold(S, g.foreach('$1', None, unless=[]), 'all queried seals are considered')
        h = heads(g, '$1')
        ck.hold(S, g.after([got + ' is Some'], None, unless=['end %s@Some' % got], target=lambda n, e: e is None and n.id in h),
                'all items are returned')
        hh = heads(g, got + '@Some')
        ck.hold(S, g.after(['next %s@Some' % got], E('add', None, 'each(%s@Some)' % got), target=lambda n, e: e is None and n.id in hh),
                'all items are returned')
        ck.ob(S, bool(h and hh), 'lookup by seal')
    # single records
    lookup(ck, p, 'bundle_id_for_op', [('op_bundle_index', 'BundleAbsent')], 'Result::Ok(get($0.op_bundle_index, $1)@Some)')
    lookup(ck, p, 'bundle_info', [('bundle_witness_index', 'BundleWitnessUnknown'), ('bundle_contract_index', 'BundleContractUnknown')],
           'Result::Ok((get($0.bundle_witness_index, $1)@Some, get($0.bundle_contract_index, $1)@Some))')
    lookup(ck, p, 'public_opouts', [('contract_index', 'ContractAbsent')], 'Result::Ok(get($0.contract_index, $1)@Some.public_opouts)')
    # forwarding
    for f, n in (('contracts_assigning', 1), ('public_opouts', 1), ('opouts_by_outputs', 2), ('opouts_by_terminals', 1),
                 ('bundle_id_for_op', 1), ('bundle_info', 1)):
        g = ck.graph(G(p, p.find(f, 'Index'), [R + '::*']))
        call = '%s::%s($0.provider%s)' % (R, f, ''.join(', $%d' % (i + 1) for i in range(n)))
        for _, r in g.rets():
            for x in alts(r):
                ck.ob('Index::' + f, m(x, [call, 'Result::Ok(%s@Ok)' % call, 'Result::Err(IndexError::*(%s@Err))' % call,
                                           'Result::Err(IndexError::Inconsistency(%s@Err@Inconsistency))' % call,
                                           'Result::Err(IndexError::ReadProvider(%s@Err@Connectivity))' % call]),
                      'the result is forwarded: %s' % show(x))


def eq(a, b):
    return ['(%s == %s)' % (a, b), '(%s == %s)' % (b, a)]


def heads(g, src):
    return {n.id for n, _, _ in g.edges(['next ' + src, 'end ' + src])}


def inloop(g, outer, evs, lits):
    """between taking an element of outer and the event lies an edge in lits"""
    st = [t for _, t, _ in g.edges(['next ' + outer])]
    w = g.reach(st, lambda n, e: e is not None and e in evs, None, lambda l: lm(l, lits))
    return w is None, w and g.describe(w)


def gather(ck, S, g, src, inner, item, on):
    """all and only the members of `inner` of the entries of src meeting `on` are added"""
    adds = g.events('add')
    for e in adds:
        ck.ob(S, m(e.args[1], [item, inner]), 'only stored items are returned: %s' % show(e.args[1]), loc=e.loc)
    ck.hold(S, inloop(g, src, adds, on), 'an item is returned only if it is stored under a queried key')
    h = heads(g, src)
    tg = lambda n, e: e is None and (n.id in h or g._okt()(n, None))
    ck.ob(S, bool(g.edges(on)), 'stored keys are compared with the queried ones')
    ck.hold(S, g.after(on, None, unless=['end ' + inner], target=tg), 'all items of a matching key are taken')
    hi = heads(g, inner)
    ck.hold(S, g.after(['next ' + inner], E('add', None, item), target=lambda n, e: e is None and (n.id in hi or n.id in h or g._okt()(n, None))),
            'each item of a matching key is returned')
    ck.ob(S, bool(hi), 'items are enumerated')
    for n, r in g.rets():
        for v in okval(r):
            ck.ob(S, m(v, ['empty<>+<add(%s)>' % item, 'empty<>']), 'the gathered set is returned: %s' % cutstr(show(v)))
    for e in g.events(['remove', 'clear', 'retain']):
        ck.ob(S, False, 'nothing is taken out of the result', loc=e.loc)


def errs(ck, S, g, tbl):
    for n, r in g.rets():
        for x in alts(r):
            if x.op == 'agg' and x.a[1] == 'Err':
                hit = [k for k in tbl if m(x, ['*::%s))' % k])]
                ck.ob(S, bool(hit), 'only the listed errors are returned: %s' % show(x))
                for k in hit:
                    ck.hold(S, g.ret_only_if('*::%s))' % k, tbl[k]), '%s only when it applies' % k)


def lookup(ck, p, f, keys, ok):
    g = ck.graph(G(p, p.find(f, 'MemIndex', R)))
    for idx, err in keys:
        ck.hold(f, g.must(lits=['get($0.%s, $1) is Some' % idx]), 'a missing record is an error')
    errs(ck, f, g, {'%s($1)' % err: ['get($0.%s, $1) is None' % idx] for idx, err in keys})
    for n, r in g.rets():
        for x in alts(r):
            if not (x.op == 'agg' and x.a[1] == 'Err'):
                ck.ob(f, m(x, ok), 'the stored record is returned: %s' % show(x))
