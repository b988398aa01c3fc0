"""index writing"""
from rules import *

RULE = '''MIR of the in-memory index writers and of the walk over a consignment or bundle, helpers inlined. For every item of
an assignment list: a revealed seal puts exactly (operation, type, own position) under the output resolved from that very
seal in the index of the given contract, a concealed seal puts it under that concealed seal in the terminal index, and
what the index already holds under the key is kept. Bundles and operations are recorded under their own ids, a conflicting
record is an error before anything is changed. The walk visits genesis, every extension, and every bundle of every witness,
each of the four state kinds, with the ids of the operation at hand.'''
FLOOR = 70
KINDS = ('Declarative', 'Fungible', 'Structured', 'Attachment')
ABSENT = 'get($0.contract_index, $1)'


def check(ck):
    p = ck.p
    W = 'IndexWriteProvider'
    for nm, res in (('index_genesis_assignments', ['XChain::to_output_seal(%s)@Some']),
                    ('index_transition_assignments', ['XChain::try_to_output_seal(%s, $5)@Ok'])):
        S = 'MemIndex::' + nm
        g = ck.graph(G(p, p.find(nm, 'MemIndex', W)))
        op = 'Opout::new($3, $4, position($2) as u16)'
        seals = ['each($2)@ConfidentialState.seal', 'each($2)@Revealed.seal']
        secret = ['each($2)@Confidential.seal', 'each($2)@ConfidentialSeal.seal']
        known = multimap(ck, g, S, '$0.contract_index[$1].outpoint_opouts', [r % s for r in res for s in seals], op,
                         'state on a revealed seal')
        term = multimap(ck, g, S, '$0.terminal_index', secret, op, 'state on a concealed seal')
        names = ('Confidential', 'ConfidentialSeal', 'ConfidentialState', 'Revealed')
        for k in names:
            mine = term if k in names[:2] else known
            other = ['each($2) is ' + x for x in names if x != k] + [lambda l, k=k: not_variant(l, 'each($2)', k)]
            ck.hold(S, g.foreach('$2', lambda e: e in mine, unless=other), '%s items are all indexed' % k)
        for e in known:
            ck.hold(S, g.only_if(lambda z: z is e, ['each($2) is ConfidentialState', 'each($2) is Revealed']), 'only revealed seals')
        for e in term:
            ck.hold(S, g.only_if(lambda z: z is e, ['each($2) is Confidential', 'each($2) is ConfidentialSeal']), 'only concealed seals')
        ck.hold(S, g.must(lits=[ABSENT + ' is Some']), 'an unknown contract is an error')
        for e in g.events(['add', 'remove', 'clear', 'retain']):
            ck.ob(S, e in known or e in term or e.dst.startswith('_') or e.dst in ('$0.terminal_index',) or
                  e.dst.startswith('$0.contract_index[$1].outpoint_opouts'), 'nothing else is changed: ' + e.dst, loc=e.loc)
    # bundles, operations, contracts
    S = 'MemIndex::register_bundle'
    g = ck.graph(G(p, p.find('register_bundle', 'MemIndex', W)))
    wit = multimap(ck, g, S, '$0.bundle_witness_index', '$1', '$2', 'the witness of a bundle')
    con = [e for e in g.events('add') if e.dst == '$0.bundle_contract_index' and m(e.args[1], '($1, $3)')]
    ck.hold(S, g.must(lambda e: e in wit), 'the witness is recorded')
    same = ['($3 == get($0.bundle_contract_index, $1)@Some)', '(get($0.bundle_contract_index, $1)@Some == $3)', 'get($0.bundle_contract_index, $1) is Some']
    ck.hold(S, g.must(lambda e: e in con, same), 'the contract is recorded')
    conflict(ck, g, S, 'get($0.bundle_contract_index, $1)', '$3')
    newness(ck, g, S, 'get($0.bundle_contract_index, $1)')
    S = 'MemIndex::register_operation'
    g = ck.graph(G(p, p.find('register_operation', 'MemIndex', W)))
    con = [e for e in g.events('add') if e.dst == '$0.op_bundle_index' and m(e.args[1], '($1, $2)')]
    same = ['($2 == get($0.op_bundle_index, $1)@Some)', '(get($0.op_bundle_index, $1)@Some == $2)', 'get($0.op_bundle_index, $1) is Some']
    ck.hold(S, g.must(lambda e: e in con, same), 'the bundle of an operation is recorded')
    conflict(ck, g, S, 'get($0.op_bundle_index, $1)', '$2')
    newness(ck, g, S, 'get($0.op_bundle_index, $1)')
    S = 'MemIndex::register_contract'
    g = ck.graph(G(p, p.find('register_contract', 'MemIndex', W)))
    for e in g.events(['add', 'remove', 'clear', 'retain']):
        ck.ob(S, e.name == 'add' and e.dst == '$0.contract_index' and show(field(e.args[1], '0')) == '$1',
              'only the new contract is added: %s' % show(e.args[-1]), loc=e.loc)
        ck.hold(S, g.only_if(lambda z: z is e, [ABSENT + ' is None']), 'a known contract index is never replaced')
    ck.hold(S, g.must(E('add'), [ABSENT + ' is Some']), 'the contract is registered')
    for r, c in (('Result::Ok(true)', ' is None'), ('Result::Ok(false)', ' is Some')):
        ck.hold(S, g.ret_only_if(r, [ABSENT + c]), 'newness is reported')
    # walk
    STOP = ['IndexWriteProvider::*']
    I = 'IndexWriteProvider::'
    S = 'Index::index_bundle'
    g = ck.graph(G(p, p.find('index_bundle', 'Index'), STOP))
    bundle(ck, S, g, '$1', '$2', '$3', top=True)
    S = 'Index::index_consignment'
    g = ck.graph(G(p, p.find('index_consignment', 'Index'), STOP + ['AnchoredBundles::*', '*::to_witness_id', 'TransitionBundle::*']))
    CID = ['ConsignmentExt::contract_id($1)', 'Operation::contract_id(ConsignmentExt::genesis($1))']
    ck.hold(S, g.must(E(I + 'register_contract', None, CID)), 'the contract is registered')
    first = E(I + 'register_contract', None, CID)
    for e in g.events(I + 'index_*'):
        ck.hold(S, g.only_if(lambda z: z is e, [], via=first), 'the contract is registered before its state is indexed')
    GEN = 'ConsignmentExt::genesis($1)'
    assigns(ck, S, g, GEN, [GEN + '.assignments'], CID, ['Operation::id(%s)' % GEN, 'Genesis::id(%s)' % GEN], None)
    EX = 'ConsignmentExt::extensions($1)'
    X = 'each(%s)' % EX
    assigns(ck, S, g, X, [X + '.assignments'], CID, ['Operation::id(%s)' % X, 'Extension::id(%s)' % X], None, outer=EX)
    WB = 'ConsignmentExt::bundled_witnesses($1)'
    wid = 'ToWitnessId::to_witness_id(each(%s).pub_witness)' % WB
    for e in g.events(I + 'register_bundle'):
        b = show(e.args[1])
        ck.ob(S, b.startswith('TransitionBundle::bundle_id(') and WB in b, 'a bundle is registered under its id: ' + b, loc=e.loc)
    bs = sorted({show(e.args[1])[len('TransitionBundle::bundle_id('):-1] for e in g.events(I + 'register_bundle')})
    ck.ob(S, bool(bs), 'bundles are registered')
    ck.hold(S, g.must(lits=['end ' + WB]), 'all witnesses are visited')
    heads = {n.id for n, _, _ in g.edges(['next ' + WB, 'end ' + WB])}
    for b in bs:
        src = b[5:b.rindex(')')] if b.startswith('each(') else b
        ck.ob(S, m_str(src, ['AnchoredBundles::*(each(%s).anchored_bundles)' % WB, 'WitnessBundle::*(each(%s))' % WB]), 'they are the bundles of the witness: ' + src)
        ck.hold(S, g.after(['next ' + WB], None, unless=['end ' + src], target=lambda n, e: e is None and n.id in heads), 'all bundles of a witness are visited')
    for b in bs:
        bundle(ck, S, g, CID, b, wid)
    # every bundle kept by a witness is visited
    adt = p.adt('AnchoredBundles')
    fn = p.find('bundles', 'AnchoredBundles')
    for v in p.adts[adt]['variants']:
        t = agg(adt, v['name'], [(f[0], pay(mk('param', 0, 'p0'), v['name'], f[0])) for f in v['fields']])
        _, gs = seq(ck, fn, argterms=[t])
        got = sorted({show(x) for h in gs for e in h.events('add') for x in forms(e.args[1])})
        want = sorted('$0@%s%s.bundle' % (v['name'], '.' + f[0] if f[0] != '0' else '') for f in v['fields'])
        ck.ob('AnchoredBundles::bundles', got == want, '%s yields its bundles: %s' % (v['name'], got))


def m_str(s, ps):
    return any(pat(x).match(s) for x in ps)


def newness(ck, g, S, known):
    oks = [x for _, r in g.rets() for x in okval(r)]
    ck.ob(S, bool(oks), 'newness is reported')
    for x in oks:
        s = show(x)
        if s in ('true', 'false'):
            ck.hold(S, g.ret_only_if('Result::Ok(%s)' % s, [known + (' is None' if s == 'true' else ' is Some')]), 'newness is reported')
        else:
            ck.ob(S, m(x, ['!(%s is Some)' % known, '(%s is None)' % known]), 'newness is reported: %s' % cutstr(s))


def not_variant(l, t, k):
    return l[0] == 'isnot' and show(l[1]) == t and k in l[2]


def conflict(ck, g, S, known, new):
    """a different known value is an error, and nothing is changed then"""
    diff = ['!(%s == %s@Some)' % (new, known), '!(%s@Some == %s)' % (known, new)]
    ck.hold(S, g.never_after(diff, target=g._okt()), 'a conflicting record is an error')
    ck.ob(S, bool(g.edges(diff)), 'a known record is compared')
    ck.hold(S, g.never_after(diff, lambda e: e.name in ('add', 'remove', 'clear', 'retain') and not e.dst.startswith('_')),
            'a conflicting record changes nothing')
    for e in g.events(['add', 'remove', 'clear', 'retain']):
        if e.dst.startswith('_'):
            continue
        ck.hold(S, g.only_if(lambda z: z is e, [known + ' is None', diff[0][1:], diff[1][1:]]),
                'the known record is compared before anything is changed', loc=e.loc)


def assigns(ck, S, g, op, lists, cid, opid, wit, outer=None, nested=False):
    """all assignments of the operation `op` are indexed"""
    I = 'IndexWriteProvider::' + ('index_genesis_assignments' if wit is None else 'index_transition_assignments')
    for src in lists:
        if outer:
            if not nested:
                ck.hold(S, g.foreach(outer, None), 'all of %s are visited' % outer)
            heads = {n.id for n, _, _ in g.edges(['next ' + outer, 'end ' + outer])}
            tg = lambda n, e: e is None and n.id in heads
            ck.hold(S, g.after(['next ' + outer], None, unless=['end ' + src], target=tg), 'all typed lists of %s are visited' % op)
        else:
            ck.hold(S, g.must(lits=['end ' + src]), 'all typed lists of %s are visited' % op)
        x = 'each(%s)' % src
        for k in KINDS:
            args = [None, cid, '%s.1@%s' % (x, k), opid, x + '.0'] + ([wit] if wit else [])
            q = E(I, *args)
            hs = {n.id for n, _, _ in g.edges(['next ' + src, 'end ' + src])}
            tg = lambda n, e: e is None and n.id in hs or g._okt()(n, e)
            ck.ob(S, bool(g.edges(['%s.1 is %s' % (x, k)])), '%s lists of %s are handled' % (k, op))
            ck.hold(S, g.after(['%s.1 is %s' % (x, k)], q, target=tg), '%s state of %s is indexed with its ids' % (k, op))


def bundle(ck, S, g, cid, b, wid, top=False):
    I = 'IndexWriteProvider::'
    bid = 'TransitionBundle::bundle_id(%s)' % b
    reg = E(I + 'register_bundle', None, bid, wid, cid)
    kt = b + '.known_transitions'
    outer = b[5:-1] if b.startswith('each(') else None
    if top:
        ck.hold(S, g.must(reg), 'the bundle is registered')
        ck.hold(S, g.foreach(kt, E(I + 'register_operation', None, opids(kt), bid)), 'every known operation is registered')
    else:
        hs = {n.id for n, _, _ in g.edges(['next ' + outer, 'end ' + outer])} if outer else set()
        ck.ob(S, bool(hs), 'bundles are enumerated: %s' % outer)
        tg = lambda n, e: e is None and n.id in hs
        ck.hold(S, g.after(['next ' + outer], reg, target=tg), 'every bundle is registered with its witness')
        ck.hold(S, g.after(['next ' + outer], None, unless=['end ' + kt], target=tg), 'all known operations are visited')
        ck.hold(S, g.foreach(kt, E(I + 'register_operation', None, opids(kt), bid), complete=False), 'every known operation is registered')
        wb = 'ConsignmentExt::bundled_witnesses($1)'
        hw = {n.id for n, _, _ in g.edges(['next ' + wb, 'end ' + wb])}
        ck.hold(S, g.after(['next ' + wb], None, unless=['end ' + outer], target=lambda n, e: e is None and n.id in hw),
                'all bundles of a witness are visited')
    assigns(ck, S, g, 'each(%s).1' % kt, ['each(%s).1.assignments' % kt], cid, opids(kt), wid, outer=kt, nested=not top)


def opids(kt):
    return ['each(%s).0' % kt, 'Operation::id(each(%s).1)' % kt]
