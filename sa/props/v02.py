"""containers: what the validator is shown"""
from rules import *

RULE = '''MIR of the consignment index given to the validator. Every bundle of every witness is indexed under its own id,
together with the witness id and the anchor it came with; every known transition of it under its key with that witness and
bundle; every extension and script under its own id, every witness under its id. Lookups use the index of their kind with
the asked id, an operation is found as genesis, transition or extension of that id, and schema, types and genesis are those of
the consignment.'''
FLOOR = 20


def check(ck):
    p = ck.p
    S = 'IndexedConsignment::new'
    g = ck.graph(G(p, p.find('new', 'IndexedConsignment'), ['WitnessBundle::anchored_bundles']))
    w = 'each($0.bundles)'
    ab = 'WitnessBundle::anchored_bundles(%s)' % w
    b = 'each(%s)' % ab
    bid = 'TransitionBundle::bundle_id(%s.1)' % b
    wid = '*(%s.pub_witness*)' % w
    op = 'each(%s.1.known_transitions).0' % b
    tbl = {
        'witness_idx': ('$0.bundles', wid, w + '.pub_witness'),
        'bundle_idx': (ab, bid, b + '.1'),
        'anchor_idx': (ab, bid, '(%s, %s.0)' % (wid, b)),
        'op_witness_idx': (b + '.1.known_transitions', op, wid),
        'op_bundle_idx': (b + '.1.known_transitions', op, bid),
        'extension_idx': ('$0.extensions', '*id(each($0.extensions))', 'each($0.extensions)'),
        'scripts': ('$0.scripts', '*id(each($0.scripts))', 'each($0.scripts)'),
    }
    heads = {n.id for n, _, _ in g.edges(['next $0.bundles', 'end $0.bundles'])}
    inner = {n.id for n, _, _ in g.edges(['next ' + ab, 'end ' + ab])}
    any_ = lambda n, e: e is None and n.ret is not None
    ck.hold(S, g.foreach('$0.bundles', None, target=any_), 'all witness bundles are visited')
    ck.hold(S, g.after(['next $0.bundles'], None, unless=['end ' + ab], target=lambda n, e: e is None and (n.id in heads or n.ret is not None)), 'all bundles of a witness are visited')
    kt = b + '.1.known_transitions'
    ck.hold(S, g.after(['next ' + ab], None, unless=['end ' + kt], target=lambda n, e: e is None and (n.id in inner or n.ret is not None)), 'all transitions of a bundle are visited')
    fields = {f[0] for f in p.adts[p.adt('IndexedConsignment')]['variants'][0]['fields']}
    ck.ob(S, fields == set(tbl) | {'consignment'}, 'the index consists of the known parts: %s' % sorted(fields))
    for _, r in g.rets():
        ck.ob(S, m(field(r, 'consignment'), '$0'), 'the consignment is the given one')
        for f, (src, k, v) in tbl.items():
            t = field(r, f)
            its = items_of(t)
            ck.ob(S, bool(its), '%s is filled: %s' % (f, cutstr(show(t))))
            for x in its or ():
                ck.ob(S, m(x, '(%s, %s)' % (k, v)), '%s maps own ids to their items: %s' % (f, cutstr(show(x), 400)))
    for f, (src, k, v) in tbl.items():
        item = '(%s, %s)' % (k, v)
        full = src in ('$0.extensions', '$0.scripts', '$0.bundles')
        ck.hold(S, g.foreach(src, E('add', None, item), unless=['get(empty<>+<add(%s)*, %s) is Some' % (item, k), 'contains(empty<>+<add(%s)*, %s)' % (item, k)], complete=full, target=any_), 'every item is in %s' % f)
    for n in ('bundle', 'op_witness_id', 'pub_witness', 'extension'):
        S = n
        idx = {'bundle': 'bundle_idx', 'op_witness_id': 'op_witness_idx', 'pub_witness': 'witness_idx', 'extension': 'extension_idx'}[n]
        fn = p.find(n, 'IndexedConsignment')
        look(ck, S, fn, 'get($0.%s, $1)' % idx)
    S = 'anchor'
    g = ck.graph(G(p, p.find(S, 'IndexedConsignment')))
    a = 'get($0.anchor_idx, $1)'
    for _, r in g.rets():
        ck.ob(S, m(r, ['Option::None', 'Option::Some((%s@Some.0, %s@Some.1))' % (a, a)]), 'the witness and anchor of the bundle are given: %s' % cutstr(show(r)))
    ck.hold(S, g.ret_only_if('Option::None', [a + ' is None']), 'a known anchor is given')
    S = 'operation'
    g = ck.graph(G(p, p.find(S, 'IndexedConsignment')))
    gid = '*id($0.consignment.genesis)'
    tb = 'get($0.op_bundle_idx, $1)'
    bb = 'get($0.bundle_idx, %s@Some)' % tb
    tt = 'get(%s@Some.known_transitions, $1)' % bb
    ee = 'get($0.extension_idx, $1)'
    isg = ['($1 == %s)' % gid, '(%s == $1)' % gid]
    want = {'Genesis': 'Option::Some(OpRef::Genesis($0.consignment.genesis))', 'Transition': 'Option::Some(OpRef::Transition(%s@Some))' % tt,
            'Extension': 'Option::Some(OpRef::Extension(%s@Some))' % ee}
    for _, r in g.rets():
        for x in alts(r):
            ck.ob(S, m(x, ['Option::None'] + list(want.values())), 'the operation with the asked id is given: %s' % cutstr(show(x)))
    for k, v in want.items():
        ck.ob(S, any(mays(r, v) for _, r in g.rets()), 'a %s can be found' % k.lower())
    ck.hold(S, g.ret_only_if(want['Genesis'], isg), 'genesis is given only for its own id')
    ck.hold(S, g.ret_only_if('Option::None', ['!' + x for x in isg]), 'genesis is found')
    ck.hold(S, g.ret_only_if('Option::None', [tb + ' is None', bb + ' is None', tt + ' is None']), 'a known transition is found')
    ck.hold(S, g.ret_only_if('Option::None', [ee + ' is None']), 'a known extension is found')
    S = 'bundle_ids'
    g = ck.graph(G(p, p.find(S, 'IndexedConsignment')))
    for _, r in g.rets():
        its = items_of(r)
        ck.ob(S, its is not None and all(m(x, ['each($0.bundle_idx).0', 'each(each($0.bundle_idx).0)']) for x in its) and bool(its) or m(r, ['lazy(*$0.bundle_idx*)', '$0.bundle_idx.keys*', 'empty<>+<add(each($0.bundle_idx).0)>']),
              'the ids of all indexed bundles are listed: %s' % cutstr(show(r)))
    for n, w in (('genesis', '$0.consignment.genesis'), ('schema', '$0.consignment.schema'), ('types', '$0.consignment.types'), ('scripts', '$0.scripts'), ('deref', '$0.consignment')):
        look(ck, n, p.find(n, 'IndexedConsignment'), w)


def items_of(t):
    its, b = [], t
    while b.op == 'upd':
        if any(x[0] != 'add' or len(x) != 2 for x in b.a[1]):
            return None
        its += [x[1] for x in b.a[1]]
        b = b.a[0]
    return its if show(b).startswith(('empty<', 'default')) else None


def look(ck, S, fn, want):
    g = ck.graph(G(ck.p, fn))
    for _, r in g.rets():
        for x in alts(r):
            ck.ob(S, m(x, [want, 'Option::None', 'Option::Some(%s@Some)' % want]), 'the asked item is looked up: %s' % cutstr(show(x)))
    if any(mays(r, 'Option::None') for _, r in g.rets()):
        ck.hold(S, g.ret_only_if('Option::None', [want + ' is None']), 'a known item is found')
