"""stock: the history given in a consignment"""
from rules import *
from props.s03 import propagate

RULE = '''MIR of the consignment export, the private lookups of a transition and of an anchored bundle being summarised and
analysed separately. The export starts from the public outputs of the contract, the outputs and the secret seal asked for;
for each operation which is not the genesis its transition is read, its bundle collected, and the operations closed by its
inputs are put on the list of operations still to be done, until the list is empty; the transition is revealed in its bundle.
Every collected bundle is put out under a valid witness of its own, with the public data of that witness, and merged with the
other bundle of the same witness. A transition is the known one of the asked id in the bundle the index names, an anchored bundle
has the proof of its contract from the anchor of its closing method of a valid witness. Errors are returned.'''
FLOOR = 40
ST = ['Stash::*', 'State::*', 'Index::*', 'ClientBundle::*', 'WitnessBundle::*']


def by_result(p, ty):
    r = [f for f in p.fns.values() if f.selfadt and f.selfadt.endswith('::Stock') and f.j.get('kind') != 'closure' and p.body(f) and p.body(f).locals[0].startswith('std::result::Result<' + ty + ',')]
    if len(r) != 1:
        import program
        raise program.AnchorError('one function of the stock which gives %s: %s' % (ty, [f.path for f in r]))
    return r[0]


def export(p):
    tr, cb = by_result(p, '&rgb::Transition'), by_result(p, 'containers::anchors::ClientBundle')
    cs = p.find('consign', 'Stock')
    return tr, cb, cs, G(p, cs, ST + [p.short(tr), p.short(cb)])


def check(ck):
    p = ck.p
    tr, cb, cs, g = export(p)
    ck.graph(g)
    TR, CB = p.short(tr), p.short(cb)
    S = 'consign'
    srcs = {'public outputs': ('Index::public_opouts', '$0.index', '$1'), 'asked outputs': ('Index::opouts_by_outputs', '$0.index', '$1', '$2'),
            'the asked secret seal': ('Index::opouts_by_terminals', '$0.index', ['OptIter{opt: $3}', '$3', 'empty<>+<add($3@Some)>', '[$3@Some]', 'empty<>', '[]'])}
    for k, a in srcs.items():
        ck.hold(S, g.must(E(*a)), '%s are looked up' % k)
        for e in g.events(a[0]):
            ck.ob(S, ev_args(e, a[1:]), '%s of the contract are looked up: %s' % (k, cutstr(', '.join(map(show, e.args)))), loc=e.loc)
    heads = ['each(%s(*)@Ok*).op' % a[0] for a in srcs.values()]
    op1 = lambda t: all(m(x, heads) for x in alts(t))
    wl = 'each(worklist())'
    evs = g.events(TR)
    first = [e for e in evs if not m(e.args[1], wl)]
    for e in first:
        ck.ob(S, op1(e.args[1]), 'the first transitions are those of the outputs: %s' % cutstr(show(e.args[1])), loc=e.loc)
    for k, h in zip(srcs, heads):
        # either in one loop over all of the outputs or each in a loop of its own
        ok = any(mays(e.args[1], h) for e in evs) or bool(g.events('add', args=[None, h]))
        ck.ob(S, ok, 'the transitions of %s are read' % k)
        nm = srcs[k][0]
        ck.hold(S, g.foreach(['*%s(*)@Ok*' % nm], anyof(E(TR), E('add', None, [h, h[:-3]])), unless=['($1 == *%s(*)@Ok*).op*' % nm, '(*%s(*)@Ok*).op* == $1)' % nm]), 'none of %s is left out' % k)
    OUT = [x + y for x in ('next ', 'end ') for y in ('Index::*opouts*', 'empty<>+<add(each(Index::*opouts*')]
    t1 = [TR + '($0, %s)@Ok' % h for h in heads] + [TR + '($0, {*opouts*})@Ok']
    t2 = [TR + '($0, %s)@Ok' % wl]
    # transitions of outputs and of the list
    for what, ts, ids in (('an output', t1, heads + ['{*opouts*}']), ('a listed operation', t2, [wl])):
        bids = ['Index::bundle_id_for_op($0.index, %s)' % x for t in ts for x in ['*id(%s)' % t]] + ['Index::bundle_id_for_op($0.index, %s)' % x for x in ids]
        read = [t + ' is Ok' for t in (x[:-3] for x in ts)]
        ck.ob(S, bool(g.edges(read)), 'the transition of %s is read' % what)
        nxt = {n.id for n, _, _ in g.edges(['next worklist()', 'end worklist()'] if ts is t2 else OUT)}
        tgt = lambda n, e, nxt=nxt: e is None and (n.id in nxt or n.ret is not None and mays(n.ret, 'Result::Ok(*'))
        ck.hold(S, g.after(read, None, unless=[b + ' is Ok' for b in bids], target=tgt), 'the bundle of %s is looked up' % what)
        have = ['get(*, %s@Ok) is Some' % b for b in bids] + ['contains(*, %s@Ok)' % b for b in bids]
        ck.hold(S, g.after(read, anyof(*[E('add', None, '(%s@Ok, %s($0, %s@Ok)@Ok*)' % (b, CB, b)) for b in bids]), unless=have, target=tgt), 'the bundle of %s is collected' % what)
        src = ['*inputs(%s)' % t for t in ts] + [t + '.inputs' for t in ts]
        ins = ['each(%s).prev_out.op' % s for s in src]
        if ts is t2:
            ck.hold(S, g.after(read, None, unless=['end ' + s for s in src], target=tgt), 'the inputs of %s are visited' % what)
        else:
            ck.hold(S, g.must(None, ['end ' + s for s in src] + ['end empty<>+<*%s*>' % TR, 'end empty<>'] + [x for x in OUT if x.startswith('end')]), 'the inputs of %s are visited' % what)
        ck.hold(S, g.foreach(src, E('add', None, ins), complete=False), 'the operations closed by %s are to be done' % what)
    # the transitions kept for their inputs are all visited
    kept = [e for e in g.events('add') if any(m(e.args[1], '(*, %s)' % t) for t in t1) and not e.args[0].op == 'none']
    if kept:
        KEPT = ['empty<>+<add((each(Index::*%s(*)@Ok))>' % TR, 'empty<>+<add(({each(Index::*%s(*)@Ok))>' % TR, 'empty<>+<add(%s(*)@Ok)>' % TR]
        ck.hold(S, g.foreach(KEPT, None), 'all kept transitions are visited')
        nxt = {n.id for n, _, _ in g.edges(OUT)}
        ck.hold(S, g.after([x[:-3] + ' is Ok' for x in t1], anyof(*[E('add', None, '(*, %s)' % t) for t in t1] + [E('add', None, 'each(*inputs(%s)).prev_out.op' % t) for t in t1]),
                           target=lambda n, e: e is None and (n.id in nxt)), 'the transition of an output is kept until its inputs are visited')
        heads2 = {n.id for n, _, _ in g.edges([x + y for x in ('next ', 'end ') for y in KEPT])}
        ck.hold(S, g.after(['next ' + y for y in KEPT], None, unless=['end *inputs(%s)' % t for t in t1], target=lambda n, e: e is None and n.id in heads2), 'the inputs of each kept transition are visited')
    ck.hold(S, g.must(lits=['end worklist()']), 'all listed operations are done')
    def done(l):
        # an operation remembered as done already
        t = l[1]
        if not (lm(l, ['contains(empty<>*, %s)' % wl, 'get(empty<>*, %s) is Some' % wl]) and t.op == 'call' and isinstance(t.a[1], Term)):
            return False
        its, b = [], t.a[1]
        while b.op == 'upd':
            its += [x[1] for x in b.a[1] if x[0] == 'add']
            b = b.a[0]
        key = lambda x: field(x, '0') if x.op == 'agg' and x.a[0] == '()' else x
        return all(m(z, [wl] + heads) for x in its for z in alts(key(x)))
    ck.hold(S, g.foreach('worklist()', E(TR, '$0', wl), unless=['($1 == %s)' % wl, '(%s == $1)' % wl, done], complete=False), 'only the genesis is left out')
    bid2 = ['Index::bundle_id_for_op($0.index, *id(%s))@Ok' % t2[0], 'Index::bundle_id_for_op($0.index, %s)@Ok' % wl]
    for e in g.events('ClientBundle::reveal_transition'):
        ck.ob(S, m(e.args[1], t2 + t1), 'a transition which was read is revealed: %s' % cutstr(show(e.args[1])), loc=e.loc)
        if m(e.args[1], t2):
            ck.ob(S, any(pat('*%s*' % b).match(show(e.args[0])) for b in bid2), 'it is revealed in its own bundle: %s' % cutstr(show(e.args[0])), loc=e.loc)
    hw = {n.id for n, _, _ in g.edges(['next worklist()', 'end worklist()'])}
    ck.hold(S, g.after([t[:-3] + ' is Ok' for t in t2], E('ClientBundle::reveal_transition', None, t2), target=lambda n, e: e is None and (n.id in hw or n.ret is not None and mays(n.ret, 'Result::Ok(*'))), 'each transition of the history is revealed')
    # bundles are put out
    M = ['empty<>*%s($0, *' % CB]
    item = ['*%s($0, *' % CB, 'each(*%s($0*).1' % CB]
    wit = 'State::select_valid_witness($0.state, Index::bundle_info($0.index, ClientBundle::bundle_id(*))@Ok.0)'
    out = E('add', None, ['(%s@Ok, WitnessBundle::*' % wit, '(%s@Ok, {WitnessBundle::*' % wit])
    ck.hold(S, g.foreach(M, out), 'every collected bundle is put out under its valid witness')
    for e in g.events('WitnessBundle::with'):
        ck.ob(S, m(e.args[0], 'Stash::witness($0.stash, %s@Ok)@Ok.public' % wit), 'the public data is of the valid witness of the bundle: %s' % cutstr(show(e.args[0])), loc=e.loc)
        ck.ob(S, m(e.args[1], item), 'the bundle is a collected one: %s' % cutstr(show(e.args[1])), loc=e.loc)
    for e in g.events('WitnessBundle::into_double'):
        ck.ob(S, all(pat('get(*, %s@Ok)@Some' % wit).match(show(x)) for x in alts(e.args[0])), 'the bundle is merged with that of the same witness: %s' % cutstr(show(e.args[0])), loc=e.loc)
        ck.ob(S, m(e.args[1], item), 'the bundle is a collected one: %s' % cutstr(show(e.args[1])), loc=e.loc)
    ck.hold(S, g.only_if(E('WitnessBundle::with'), ['get(*, %s@Ok) is None' % wit, '!contains(*, %s@Ok)' % wit]), 'the bundle of the same witness is not lost')
    for _, r in g.rets():
        for x in okval(r):
            s = show(field(x, 'bundles'))
            ck.ob(S, s.startswith('empty<>+<add(each(empty<>') and s.count('add(each(') >= 1 and 'WitnessBundle::with(' in s and 'WitnessBundle::into_double(' in s, 'the bundles of all witnesses are in the consignment: %s' % cutstr(s))
    propagate(ck, S, g, ['Index::public_opouts', 'Index::opouts_by_outputs', 'Index::opouts_by_terminals', TR, CB, 'Index::bundle_id_for_op', 'Index::bundle_info',
                         'State::select_valid_witness', 'Stash::witness', 'WitnessBundle::into_double', 'ClientBundle::reveal_transition'])
    # lookups
    S = 'transition'
    g = ck.graph(G(p, tr, ST))
    bid = 'Index::bundle_id_for_op($0.index, $1)'
    kt = 'get(Stash::bundle($0.stash, %s@Ok)@Ok.known_transitions, $1)' % bid
    for _, r in g.rets():
        for x in okval(r):
            ck.ob(S, m(x, kt + '@Some'), 'the transition with the asked id is given: %s' % cutstr(show(x)))
    ck.hold(S, g.must(lits=[kt + ' is Some']), 'a concealed transition is an error')
    ck.hold(S, g.ret_only_if('Result::Err(*Concealed*', [kt + ' is None']), 'a known transition is given')
    propagate(ck, S, g, ['Index::bundle_id_for_op', 'Stash::bundle'])
    S = 'client_bundle'
    g = ck.graph(G(p, cb, ST))
    info = 'Index::bundle_info($0.index, $1)'
    sv = 'State::select_valid_witness($0.state, %s@Ok.0)' % info
    an = 'Stash::witness($0.stash, %s@Ok)@Ok.anchors' % sv
    bun = 'Stash::bundle($0.stash, $1)@Ok'
    n = 0
    for meth in ('Tapret', 'Opret'):
        lo = meth.lower()
        srcs = [an + '@%s' % meth, an + '@Double.%s' % lo]
        pf = lambda t, srcs=srcs: m(t, ['MerkleBlock::to_merkle_proof(%s.mpc_proof, conv:ProtocolId(%s@Ok.1))@Ok' % (s, info) for s in srcs] + ['MerkleBlock::to_merkle_proof({%s.mpc_proof | %s.mpc_proof}, conv:ProtocolId(%s@Ok.1))@Ok' % (srcs[1], srcs[0], info)])
        db = lambda t, srcs=srcs, meth=meth: m(t, ['DbcProof::%s(%s.dbc_proof)' % (meth, s) for s in srcs] + ['DbcProof::%s({%s.dbc_proof | %s.dbc_proof})' % (meth, srcs[1], srcs[0])])
        es = [e for e in g.events('ClientBundle::new') if pf(e.args[0]) or db(e.args[1])]
        ck.ob(S, bool(es), 'a %s anchored bundle can be given' % lo)
        for e in es:
            n += 1
            ck.ob(S, pf(e.args[0]), 'the proof of the contract is from the %s anchor: %s' % (lo, cutstr(show(e.args[0]))), loc=e.loc)
            ck.ob(S, db(e.args[1]), 'the commitment proof is from the %s anchor: %s' % (lo, cutstr(show(e.args[1]))), loc=e.loc)
            ck.hold(S, g.only_if(lambda x, e=e: x is e, ['%s.close_method is %sFirst' % (bun, meth)]), 'the %s anchor is used for the method of the bundle' % lo)
        for v in (meth, 'Double'):
            # must be able to succeed with both kinds of anchors
            st = [t for nn, t, _ in g.edges(['%s is %s' % (an, v)])]
            ok = g.reach(st, lambda z, x: x is not None and any(x is e for e in es)) if st else None
            ck.ob(S, ok is not None, 'a %s bundle is found in a %s anchor' % (lo, v.lower()))
    for e in g.events('ClientBundle::new'):
        ck.ob(S, m(e.args[2], bun), 'the asked bundle is given: %s' % cutstr(show(e.args[2])), loc=e.loc)
        ck.ob(S, bool(n), 'it has the proofs of an anchor', loc=e.loc)
    ck.ob(S, n == len(g.events('ClientBundle::new')), 'all bundles given have proofs of one anchor')
    for _, r in g.rets():
        for x in okval(r):
            ck.ob(S, m(x, 'ClientBundle::new(*'), 'the anchored bundle is given: %s' % cutstr(show(x)))
    propagate(ck, S, g, ['Index::bundle_info', 'Stash::bundle', 'State::select_valid_witness', 'Stash::witness', 'MerkleBlock::to_merkle_proof'])
    # public ways
    S = 'export_contract'
    g = ck.graph(G(p, p.find(S, 'Stock'), [p.short(cs)]))
    for e in g.events(p.short(cs)):
        ck.ob(S, ev_args(e, ['$0', '$1', ['[]', '*[]*', 'empty*'], 'Option::None']), 'a contract is exported without private outputs: %s' % cutstr(', '.join(map(show, e.args))), loc=e.loc)
    whole(ck, S, g, p.short(cs))
    S = 'transfer'
    g = ck.graph(G(p, p.find(S, 'Stock'), [p.short(cs)]))
    for e in g.events(p.short(cs)):
        ck.ob(S, ev_args(e, ['$0', '$1', ['$2', '*($2)'], '$3']), 'the asked outputs and seal are exported: %s' % cutstr(', '.join(map(show, e.args))), loc=e.loc)
    whole(ck, S, g, p.short(cs))


def whole(ck, S, g, nm):
    ck.ob(S, bool(g.events(nm)), 'a consignment is composed')
    for _, r in g.rets():
        for x in okval(r):
            ck.ob(S, m(x, nm + '(*@Ok'), 'the consignment is given as composed: %s' % cutstr(show(x)))
    propagate(ck, S, g, [nm])
