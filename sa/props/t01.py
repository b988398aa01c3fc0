"""stock: accepted consignments and fascia reach all stores"""
from rules import *
from props.s03 import propagate

RULE = '''MIR of contract import, transfer acceptance and fascia consumption, helpers and transaction closures inlined down to the
three stores. The state, the index and the stash each receive the very consignment whose known secret seals were revealed,
and the returned status is the validation status of that consignment; a fascia stores its witness with its anchor and each
of its bundles goes to all three stores under its own contract id and the witness id, only if all its transitions are
committed to by the bundle. Every terminal with a known seal is revealed in every bundle and no bundle is lost.'''
FLOOR = 30
ST = ['StoreTransaction::*', 'Stash::*', 'State::*', 'Index::*', '*::split']


def check(ck):
    p = ck.p
    for S in ('import_contract', 'accept_transfer'):
        g = ck.graph(G(p, p.find(S, 'Stock'), ST))
        sp = ['ValidConsignment::split($1)', '*split($1)']
        con = ['Stash::resolve_secrets($0.stash*, %s.0)@Ok' % x for x in sp] + ['Stash::resolve_secrets($0.stash*, $1.consignment)@Ok']
        for f, n in (('State::update_from_consignment', 'state'), ('Index::index_consignment', 'index'), ('Stash::consume_consignment', 'stash')):
            ck.hold(S, g.must(E(f)), 'the consignment reaches the %s' % n)
            for e in g.events(f):
                ck.ob(S, show(e.args[0]).startswith('$0.' + n), 'the own %s is updated: %s' % (n, cutstr(show(e.args[0]))), loc=e.loc)
                ck.ob(S, m(e.args[1], con), 'the %s gets the consignment with revealed seals: %s' % (n, cutstr(show(e.args[1]))), loc=e.loc)
            w = g.reach([x for x in g.nodes if any(e.kind == 'call' and e.name == f for e in x.events)], lambda z, x: x is None and z.ret is not None and mays(z.ret, 'Result::Ok(*'), None, lambda l: lm(l, f + '(* is Ok'))
            ck.ob(S, w is None, 'a failure of the %s is returned' % n, w and g.describe(w))
        for e in g.events('State::update_from_consignment'):
            ck.ob(S, m(e.args[2], '$2'), 'witnesses are resolved with the given resolver', loc=e.loc)
        ok = [x for _, r in g.rets() for x in okval(r)]
        ck.ob(S, bool(ok), 'the import can succeed')
        for x in ok:
            ck.ob(S, m(x, [y + '.1' for y in sp] + ['$1.validation_status']), 'the validation status is returned: %s' % cutstr(show(x)))
    S = 'ValidConsignment::split'
    g = ck.graph(G(p, p.find('split', 'ValidConsignment')))
    for _, r in g.rets():
        ck.ob(S, m(r, '($0.consignment, $0.validation_status)'), 'the consignment and its own status are given: %s' % show(r))
    # seals
    S = 'resolve_secrets'
    g = ck.graph(G(p, p.find(S, 'Stash'), ['StashReadProvider::*', 'WitnessBundle::reveal_seal']))
    sec = 'StashReadProvider::seal_secret($0.provider, each($1.terminals).1)'
    for e in g.events('StashReadProvider::seal_secret'):
        ck.ob(S, m(e.args[1], 'each($1.terminals).1'), 'terminal seals are looked up: %s' % show(e.args[1]), loc=e.loc)
    evs = g.events('WitnessBundle::reveal_seal')
    ck.ob(S, bool(evs), 'seals are revealed')
    for e in evs:
        ck.ob(S, show(e.args[0]).startswith('each($1.bundles'), 'a seal is revealed in a bundle of the consignment: %s' % cutstr(show(e.args[0])), loc=e.loc)
        ck.ob(S, m(e.args[1], 'each($1.terminals).0'), 'a seal is revealed in the bundle of its terminal: %s' % cutstr(show(e.args[1])), loc=e.loc)
        ck.ob(S, m(e.args[2], sec + '@Ok@Some'), 'the seal known for the terminal is revealed: %s' % cutstr(show(e.args[2])), loc=e.loc)
    # the known seals may be collected first
    kept = [c for c, its in locals_of(g).items() if sec + '@Ok@Some' in c and any(show(x) == '(each($1.terminals).0, %s@Ok@Some)' % sec for x in its)]
    ck.hold(S, g.foreach('$1.terminals', anyof(E('WitnessBundle::reveal_seal'), E('add', None, '(each($1.terminals).0, %s@Ok@Some)' % sec)), unless=[sec + '@Ok is None'], complete=False), 'every known terminal is revealed')
    for c in kept:
        ck.hold(S, g.foreach(c, E('WitnessBundle::reveal_seal'), complete=False), 'every known seal is revealed')
        ck.hold(S, g.foreach('$1.terminals'), 'all terminals are looked up')
    heads = {n.id for n, _, _ in g.edges(['next $1.bundles', 'end $1.bundles'])}
    if g.edges(['next $1.bundles']):
        ck.hold(S, g.foreach('$1.bundles', lambda e: e.kind == 'call' and e.name == 'add' and any('each($1.bundles)' in show(x) for x in e.args[1:])), 'every bundle is kept')
        ck.hold(S, g.after(['next $1.bundles'], None, unless=['end $1.terminals'] + ['end ' + c for c in kept], target=lambda n, e: e is None and n.id in heads), 'all terminals are tried for every bundle')
    propagate(ck, S, g, ['StashReadProvider::seal_secret'])
    for _, r in g.rets():
        for x in okval(r):
            for f in p.adts[p.adt('Consignment')]['variants'][0]['fields']:
                if f[0] != 'bundles':
                    ck.ob(S, m(field(x, f[0]), '$1.' + f[0]), '%s is kept: %s' % (f[0], cutstr(show(field(x, f[0])))))
            ck.ob(S, 'each($1.bundles)' in show(field(x, 'bundles')), 'the bundles are those of the consignment')
    # one or two bundles per contract
    for f in ('into_iter', 'iter'):
        S = 'Dichotomy::' + f
        g = ck.graph(G(p, p.find(f, 'Dichotomy')))
        ck.hold(S, both(g), 'the first and the second are listed')
    # fascia
    S = 'consume_fascia'
    g = ck.graph(G(p, p.find(S, 'Stock'), ST))
    W = 'SealWitness{public: $1.witness, anchors: $1.anchor}'
    ck.hold(S, g.must(E('Stash::consume_witness', None, W)), 'the witness is stored with its anchor')
    wid = ['*($1.witness*)', '*$1.witness*']
    src = '$1.bundles'
    it = 'each(%s)' % src
    ok = ['{%s.1.first | %s.1.second@Some}' % (it, it), '%s.1.first' % it, '%s.1.second@Some' % it, '*%s.1*' % it]
    TB = [('Index::index_bundle', 'index', 1, 2, 3), ('State::update_from_bundle', 'state', 1, 2, 3), ('Stash::consume_bundle', 'stash', None, 1, None)]
    ck.hold(S, g.foreach(src), 'all bundles are visited')
    for f, n, c, b, w in TB:
        evs = g.events(f)
        ck.ob(S, bool(evs), 'bundles reach the %s' % n)
        for e in evs:
            ck.ob(S, show(e.args[0]).startswith('$0.' + n), 'the own %s is updated' % n, loc=e.loc)
            if c:
                ck.ob(S, m(e.args[c], it + '.0'), 'the %s gets the contract id of the bundle: %s' % (n, cutstr(show(e.args[c]))), loc=e.loc)
            ck.ob(S, m(e.args[b], ok), 'the %s gets a bundle of the fascia: %s' % (n, cutstr(show(e.args[b]))), loc=e.loc)
            if w:
                ck.ob(S, m(e.args[w], wid), 'the %s gets the witness id: %s' % (n, cutstr(show(e.args[w]))), loc=e.loc)
        got = {show(y) for e in evs for y in forms(e.args[b])}
        if any('.first' in y for y in got):
            ck.ob(S, {it + '.1.first', it + '.1.second@Some'} <= got, 'both bundles of a contract reach the %s: %s' % (n, sorted(got)))
        heads = {x.id for x, _, _ in g.edges(['next ' + src, 'end ' + src])}
        inner = ['end ' + x for x in locals_of(g) if it + '.1' in x] + ['*%s.1.second is None' % it]
        ck.hold(S, g.after(['next ' + src], E(f), unless=['!BTreeSet::is_subset(*'], target=lambda x, e: e is None and x.id in heads) if not inner else
                visited(g, src, it, f), 'every bundle reaches the %s' % n)
        kt, im = '*known_transitions*', '*input_map*'
        ck.hold(S, g.only_if(E(f), ['BTreeSet::is_subset(%s, %s)' % (kt, im), 'BTreeSet::is_superset(%s, %s)' % (im, kt), 'end ' + kt]), 'a bundle reaches the %s only if it commits to all its transitions' % n)
        bad = ['!BTreeSet::is_subset(%s, %s)' % (kt, im), '!BTreeSet::is_superset(%s, %s)' % (im, kt), '!contains(%s, %s)' % (im, kt)]
        ck.ob(S, bool(g.edges(bad)), 'a surplus transition is detected')
        ck.hold(S, g.never_after(bad, target=lambda z, x: x is None and z.ret is not None and mays(z.ret, 'Result::Ok(*')), 'a surplus transition is an error')
        w = g.reach([x for x in g.nodes if any(e.kind == 'call' and e.name == f for e in x.events)], lambda z, x: x is None and z.ret is not None and mays(z.ret, 'Result::Ok(*'), None, lambda l: lm(l, f + '(* is Ok'))
        ck.ob(S, w is None, 'a failure of the %s is returned' % n, w and g.describe(w))
    for e in g.events('State::update_from_bundle'):
        ck.ob(S, m(e.args[4], '$2'), 'witnesses are resolved with the given resolver', loc=e.loc)
    ws = {show(e.args[3]) for e in g.events(['Index::index_bundle', 'State::update_from_bundle'])}
    ck.ob(S, len(ws) == 1, 'the same witness id is used everywhere: %s' % sorted(ws))


def visited(g, src, it, f):
    """every bundle of each contract is handed to f: per loop over the bundles of a contract"""
    q = lambda e: e.kind == 'call' and e.name == f
    found = False
    for c in locals_of(g):
        if it + '.1' not in c or not g.edges(['next ' + c]) or 'known_transitions' in c or 'input_map' in c:
            continue
        found = True
        ok, w = g.foreach(c, q, complete=False)
        if not ok:
            return ok, w
        heads = {n.id for n, _, _ in g.edges(['next ' + src, 'end ' + src])}
        p = g.reach([t for _, t, _ in g.edges(['next ' + src])], lambda n, e: e is None and n.id in heads, None, lambda l: lm(l, ['end ' + x for x in locals_of(g) if it + '.1' in x and 'known' not in x and 'input_map' not in x]))
        if p:
            return False, g.describe(p)
    return (True, None) if found else g.after(['next ' + src], q)


def both(g):
    ok, w = g.must(lambda e: e.kind == 'call' and e.name == 'add' and any('$0.first' in show(x) for x in e.args[1:]))
    if ok:
        ok, w = g.between(['$0.second is Some'], lambda e: e.kind == 'call' and e.name == 'add' and any('$0.second' in show(x) for x in e.args[1:]))
        if not g.edges(['$0.second is Some']):
            ok = False
    if not ok and not g.events('add') and all(mays(r, '*$0.first*') and mays(r, '*$0.second*') for _, r in g.rets()):
        return True, None
    return ok, w
