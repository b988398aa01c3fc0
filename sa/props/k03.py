"""stash: ingestion of kits and consignments"""
from rules import *

RULE = '''MIR of kit and consignment ingestion into the stash, all helpers inlined down to the storage provider and the merge
functions. Every element of every collection of the kit or consignment is handed to the writer of its kind before success
is returned; an operation, bundle or witness already known is merged with the known one and the merged value is what is
stored; the anchors stored for a witness are built from the proofs, contract id and bundle id of its own bundles; errors
of the storage are returned.'''
FLOOR = 75
ST = ['StashReadProvider::*', 'StashWriteProvider::*', '*::merge_reveal', 'MergeReveal::*']
W = 'StashWriteProvider::'
KIT = [('scripts', 'replace_lib', ['each(%s)']), ('schemata', 'replace_schema', ['each(%s)']), ('ifaces', 'replace_iface', ['each(%s)']),
       ('iimpls', 'replace_iimpl', ['each(%s)']), ('supplements', 'add_supplement', ['each(%s)']),
       ('signatures', 'import_sigs', ['each(%s).0', 'each(%s).1'])]
CON = [('extensions', 'replace_extension', None), ('attachments', 'replace_attachment', ['each(%s).0', 'each(%s).1']),
       ('scripts', 'replace_lib', ['each(%s)']), ('ifaces', 'replace_iface', ['each(%s).0']), ('ifaces', 'replace_iimpl', ['each(%s).1']),
       ('supplements', 'add_supplement', ['each(%s)']), ('signatures', 'import_sigs', ['each(%s).0', 'each(%s).1'])]


def joined(x):
    """a witness put together from merged parts"""
    return x.op == 'agg' and 'merge_reveal(' in show(field(x, 'public')) + show(field(x, 'anchors'))


def check(ck):
    p = ck.p
    S = 'consume_kit'
    g = ck.graph(G(p, p.find(S, 'Stash'), ST))
    ck.hold(S, g.must(E(W + 'consume_types', None, '$1.types')), 'types are stored')
    every(ck, S, g, KIT)
    propagate(ck, S, g)
    ck.hold(S, order(g, [anyof(W + 'replace_schema', W + 'replace_iface'), W + 'replace_iimpl']),
            'implementations are stored after schemata and interfaces')
    S = 'Stock::import_kit'
    g = ck.graph(G(p, p.find('import_kit', 'Stock'), ['Stash::*', 'StoreTransaction::*', 'ValidKit::*', 'Validated*::*']))
    ck.hold(S, g.must(E('Stash::consume_kit', '$0.stash*', '*$1*')), 'an accepted kit is stored')
    for e in g.events('Stash::consume_kit'):
        ck.ob(S, m(e.args[1], ['ValidKit::split($1).0', '$1.kit', 'ValidKit::into_kit($1)', 'ValidKit::split($1).kit']), 'the accepted kit is stored: %s' % show(e.args[1]), loc=e.loc)
    ck.hold(S, g.never_after(['Stash::consume_kit(* is Err'], target=g._okt()), 'a failure is reported')
    S = 'consume_consignment'
    g = ck.graph(G(p, p.find(S, 'Stash'), ST))
    ck.hold(S, g.must(E(W + 'consume_types', None, '$1.types')), 'types are stored')
    ck.hold(S, through(g, None, E(W + 'replace_schema', None, '$1.schema'), item='$1.schema'), 'the schema is stored')
    every(ck, S, g, CON)
    propagate(ck, S, g)
    ck.hold(S, order(g, [anyof(W + 'replace_schema', W + 'replace_iface'), W + 'replace_iimpl']),
            'implementations are stored after the schema and interfaces')
    ck.hold(S, g.must(E(W + 'replace_genesis')), 'the genesis is stored')
    merged(ck, S, g, 'genesis', ['Operation::contract_id($1.genesis)'], '$1.genesis', 1)
    x = 'each($1.extensions)'
    merged(ck, S, g, 'extension', ['Operation::id(%s)' % x], x, 1)
    b = 'each($1.bundles)'
    ck.hold(S, g.foreach('$1.bundles', E(W + 'replace_witness')), 'every witness is stored')
    heads = {n.id for n, _, _ in g.edges(['next $1.bundles', 'end $1.bundles'])}
    ends = ['end ' + c for c in locals_of(g) if '.anchored_bundles' in c]
    ck.hold(S, g.after(['next $1.bundles'], E(W + 'replace_bundle'), unless=ends,
                       target=lambda n, e: e is None and n.id in heads), 'bundles of every witness are stored')
    AB = p.adt('AnchoredBundles')
    # one witness, per kind of anchor
    S = 'consume_witness_bundle'
    fn = p.find(S, 'Stash')
    wb = p.adt('WitnessBundle')
    prm = mk('param', 2, 'p2')
    for v in p.adts[AB]['variants']:
        t = agg(AB, v['name'], [(f[0], pay(field(prm, 'anchored_bundles'), v['name'], f[0])) for f in v['fields']])
        w = agg(wb, None, [('pub_witness', field(prm, 'pub_witness')), ('anchored_bundles', t)])
        g = ck.graph(G(p, fn, ST, argterms=[None, None, w]))
        T = S + ' ' + v['name']
        parts = ['$2.anchored_bundles@%s%s' % (v['name'], '' if f[0] == '0' else '.' + f[0]) for f in v['fields']]
        got = {show(x) for e in g.events(W + 'replace_bundle') for x in forms(e.args[1])}
        for q in parts:
            ck.ob(T, q + '.bundle' in got, 'the bundle %s is stored' % q, sorted(got)[:6])
        merged(ck, T, g, 'bundle', ['TransitionBundle::bundle_id(%s.bundle)' % q for q in parts], [q + '.bundle' for q in parts], 1)
        for c, its in locals_of(g).items():
            if any('.bundle' in show(x) for x in its) and g.edges(['next ' + c]):
                ck.hold(T, g.foreach(c, E(W + 'replace_bundle')), 'every bundle is stored')
        for q in parts:
            ck.hold(T, g.must(anyof(E('add', None, '(*, %s.bundle)' % q), E(W + 'replace_bundle', None, ['*%s.bundle*' % q]))),
                    'the bundle %s is enumerated' % q)
        ck.hold(T, g.must(E(W + 'replace_witness')), 'the witness is stored')
        for e in g.events('MerkleBlock::with'):
            ck.ob(T, all(any(m(y, c) for c in ['Anchor::new(%s.mpc_proof, *).mpc_proof' % q for q in parts] + [q + '.mpc_proof' for q in parts])
                         for y in forms(e.args[0])), 'the own inclusion proof is used: %s' % cutstr(show(e.args[0])), loc=e.loc)
            ck.ob(T, m(e.args[1], ['*(*($1))', '$1', '*($1)']), 'the proof is for the contract: %s' % show(e.args[1]), loc=e.loc)
            ck.ob(T, all(any(m(y, '*TransitionBundle::bundle_id(%s.bundle)*' % q) for q in parts) for y in forms(e.args[2])),
                  'the proof is for the bundle: %s' % show(e.args[2]), loc=e.loc)
        ck.ob(T, bool(g.events('MerkleBlock::with')), 'anchors are built')
        for e in g.events('Anchor::new'):
            a, d = show(e.args[0]), show(e.args[1])
            if 'MerkleBlock::with(' in a and 'DbcProof' in d and not d.endswith(('@Opret', '@Tapret')):
                for q in parts:
                    if len(parts) == 1:
                        ck.ob(T, q + '.mpc_proof' in a and q + '.dbc_proof' in d, 'proofs stay together', loc=e.loc)
        for e in g.events(W + 'replace_witness'):
            for x in alts(e.args[1]):
                if x.op == 'agg' and not joined(x):
                    ck.ob(T, m(field(x, 'public'), '$2.pub_witness'), 'with its public part', loc=e.loc)
                    kinds(ck, T, field(x, 'anchors'), e)
        merged(ck, T, g, 'witness', None, None, 1)
        for e in g.events(W + 'replace_witness'):
            for x in alts(e.args[1]):
                if x.op == 'with' or joined(x):
                    u, an = field(x, 'public'), field(x, 'anchors')
                    rd = 'StashReadProvider::witness(*)@Ok'
                    ck.ob(T, m(u, '*merge_reveal(%s.public, $2.pub_witness)@Ok' % rd) and m(an, 'AnchorSet::merge_reveal(%s.anchors, AnchorSet::*)@Ok' % rd),
                          'a known witness is merged with the new one: %s' % cutstr(show(u)), loc=e.loc)
        propagate(ck, T, g)


def kinds(ck, T, an, e):
    for y in alts(an):
        if y.op != 'agg':
            continue
        for nm, val in y.a[2]:
            k = {'tapret': '@Tapret', 'opret': '@Opret'}.get(nm, '@' + y.a[1])
            if val.op == 'call' and val.a[0] == 'Anchor::new':
                ck.ob(T, all(show(z).endswith(k) for z in forms(val.a[2])), 'a %s anchor has a proof of its kind' % k[1:], loc=e.loc)


def every(ck, S, g, tbl):
    for coll, w, args in tbl:
        src = '$1.' + coll
        q = E(W + w, None, *[a % src for a in args]) if args else E(W + w)
        ck.hold(S, through(g, src, q), 'every item of %s is stored' % coll)
        if args:
            for e in g.events(W + w):
                ck.ob(S, q(e), '%s is given the items of %s: %s' % (w, coll, [cutstr(show(a), 80) for a in e.args[1:]]), loc=e.loc)


def propagate(ck, S, g):
    """a storage error is not a success (signatures excepted)"""
    for e in g.events(W + '*'):
        if e.name == W + 'import_sigs' or e.res is None:
            continue
        r = show(e.res)
        ck.hold(S, g.never_after([r + ' is Err'], target=g._okt()), 'an error of %s is returned' % e.name, loc=e.loc)
        ck.hold(S, follows(g, e, None, unless=[r + ' is Ok', '*%s* is Ok' % e.name],
                           target=lambda n, z: z is None and n.id in {k.id for k in g.okrets()} and not m(n.ret, '*' + e.name + '*')),
                'the outcome of %s is looked at' % e.name, loc=e.loc)


def merged(ck, S, g, kind, ids, new, arg):
    """what is stored is the new item, or the known one merged with it"""
    rd = 'StashReadProvider::' + kind
    ck.ob(S, bool(g.events(rd)), 'a known %s is looked up' % kind)
    if ids:
        for e in g.events(rd):
            ck.ob(S, all(any(m(y, i) for i in ids) for y in forms(e.args[1])), 'a known %s is looked up by its id: %s' % (kind, cutstr(show(e.args[1]))), loc=e.loc)
    ck.hold(S, g.between([rd + '(*) is Ok'], None, unless=['*merge_reveal(%s(*)@Ok*) is Ok' % rd],
                       target=lambda n, e: e is not None and e.name == W + 'replace_' + kind or g._okt()(n, e)),
            'a known %s is merged' % kind)
    if new is None:
        return
    new = aslist(new)
    for e in g.events(W + 'replace_' + kind):
        xs = [top for top in alts(e.args[arg])]
        raw = [x for x in xs if any(m(y, new) for y in forms(x))]
        mg = [x for x in xs if m(x, '*merge_reveal(%s(*)@Ok, *)@Ok' % rd)]
        ck.ob(S, all(x in raw or x in mg for x in xs), 'the new or the merged %s is stored: %s' % (kind, cutstr(show(e.args[arg]))), loc=e.loc)
    ck.ob(S, any(m(x, '*merge_reveal(%s(*)@Ok, *)@Ok' % rd) for e in g.events(W + 'replace_' + kind) for x in alts(e.args[arg])),
          'the merged %s is stored' % kind)
