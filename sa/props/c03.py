"""stock: transitions for the other contracts of the spent outputs"""
from rules import *
from props.s03 import propagate
from props.c02 import payment, root, roles, Seals

RULE = '''MIR of the composition of a payment. For every other contract assigning state to one of the given outputs its assigned
state is looked up; each assignment, directly or through the map of spent state in which every assignment is put under its
contract and output, is given as an input to the builder of the closing method of its output and reassigned there unchanged, of the same
type, to a seal of the owner allotted for that contract and type; the output is listed with the same closing method. Every
builder with inputs is completed with its own outputs and its transition becomes a part of the batch. Errors are returned.'''
FLOOR = 23
OTH = 'Stock::contracts_assigning($0, *)@Ok'
CAF = 'Stock::contract_assignments_for($0, each(%s), *)@Ok' % OTH
ID = 'each(%s)' % OTH
TB = 'TransitionBuilder::'


def base(t, f):
    """the record whose field is taken, for all alternatives"""
    out = set()
    for x in alts(t):
        if x.op != 'field' or x.a[1] != f:
            return None
        out.add(show(x.a[0]))
    return out


def keys(t):
    return frozenset(show(x) for x in alts(t))


def loops(g, terms):
    """sources of the loops whose element has one of the given terms as its first field"""
    want = {keys(t) for t in terms}
    out = set()
    for n in g.nodes:
        for _, ls in n.succ:
            for l in ls:
                if l[0] == 'some' and keys(field(elem(l[1]), '0')) in want:
                    out.add(l[1])
    return out


def check(ck):
    p = ck.p
    S = 'compose'
    g = ck.graph(payment(p, sums=True, max_nodes=60000))
    okt = g._okt()
    isid = lambda t: all(m(x, ID) for x in alts(t))
    ck.hold(S, g.must(E('Stock::contracts_assigning', '$0')), 'the contracts of the outputs are looked up')
    for e in g.events('Stock::contracts_assigning'):
        ck.ob(S, m(e.args[1], ['empty<>+<add(conv:*(each($2)))>', 'empty<>+<add(each($2))>', '$2']), 'they are those of all given outputs: %s' % cutstr(show(e.args[1])), loc=e.loc)
    every = {show(e.args[1]) for e in g.events('Stock::contracts_assigning')}
    for e in g.events('Stock::contract_assignments_for'):
        if isid(e.args[1]):
            ck.ob(S, show(e.args[2]) in every, 'the state on all given outputs is looked up: %s' % cutstr(show(e.args[2])), loc=e.loc)
    own = ['($1.contract@Some == %s)' % ID, '(%s == $1.contract@Some)' % ID]
    ck.hold(S, g.foreach(OTH, E('Stock::contract_assignments_for', '$0', ID), own), 'the state of every other contract is looked up')
    ck.hold(S, g.only_if(E('Stock::contract_assignments_for', '$0', ID), ['!' + x for x in own]), 'the paid contract is not spent again')
    bb = lambda e: pat('Stock::blank_builder#*@Ok').match(show(root(e.args[0]))) is not None
    for e in g.events('Stock::blank_builder'):
        ck.ob(S, isid(e.args[1]), 'a blank transition is made for the other contract: %s' % cutstr(show(e.args[1])), loc=e.loc)
    ins = [e for e in g.events(TB + 'add_input') if bb(e)]
    own_ = [e for e in g.events(TB + 'add_owned_state_raw') if bb(e)]
    ck.ob(S, bool(ins) and bool(own_), 'state of other contracts is spent and reassigned')
    for e in g.events(TB + 'add_*'):
        if bb(e):
            ck.ob(S, e in ins or e in own_, 'blank transitions only keep state: %s' % e.name, loc=e.loc)
    elems = set()
    for e in ins:
        a, b = base(e.args[1], '0'), base(e.args[2], '1')
        ck.ob(S, a is not None and a == b, 'an input is given with its own state: %s' % cutstr(', '.join(map(show, e.args[1:])), 300), loc=e.loc)
        elems |= a or set()
    sl = Seals([])
    for e in own_:
        t = base(e.args[1], 'ty')
        st = base(e.args[3], '1')
        ck.ob(S, t is not None and st is not None and t == {x + '.0' for x in st} and st <= elems, 'state is reassigned unchanged under its own type: %s' % cutstr(', '.join(map(show, e.args[1:])), 300), loc=e.loc)
        for s in alts(e.args[2]):
            ty = show(e.args[1])
            ok = m(s, ['BuilderSeal::Revealed(XChain::with(%s, BlindSeal::with_blinded_vout($3, call($6, *' % a for a in sl.l1])
            c = [x for x in g.events('call') if show(x.args[0]) == '$6' and '%s@Some' % show(x.res) in show(s)]
            ok = ok and len({show(x.args[2]) for x in c}) == 1 and all(isid(x.args[1]) and show(x.args[2]) == ty for x in c)
            ck.ob(S, ok, 'it goes to the output allotted to the contract and type: %s' % cutstr(show(s), 400), loc=e.loc)
    # the three loops
    l3 = loops(g, [e.args[1] for e in ins])
    src = [show(x) for x in l3]
    ck.ob(S, bool(src), 'the assignments are visited')
    meth = [e for e in g.events('TxoSeal::method') if not m(e.args[0], 'each(Stock::contract_assignments_for($0, $1.contract@Some, *)@Ok).0')]
    l2 = loops(g, [e.args[0] for e in meth])
    e2 = {keys(e.args[0]) for e in meth}
    src2 = [show(x) for x in l2]
    ck.ob(S, bool(src2), 'the outputs are visited')
    direct = all(pat('each(each(%s).1)' % CAF).match(x) for x in elems)
    if direct:
        src1 = [OTH]
    else:
        src1 = ['empty<>+<*add((%s, *' % ID, 'empty<>+<*add(({%s*' % ID]
        item = 'each(each(%s).1)' % CAF
        put = lambda e: e.name == 'add' and m(e.args[1], item) and len(e.dst.keys) >= 2 and m(e.dst.keys[0], ID) and m(e.dst.keys[1], 'each(%s).0' % CAF)
        ck.ob(S, bool([e for e in g.events('add') if put(e)]), 'every assignment is put under its contract and output')
        nx = g.edges(['next ' + CAF])
        heads = {n.id for n, _, _ in nx + g.edges(['end ' + CAF])}
        # extending by a collection adds all of its items
        w = g.reach([t for _, t, _ in nx], lambda n, e: e is None and n.id in heads, put, lambda l: lm(l, ['end each(%s).1' % CAF]))
        ck.ob(S, w is None and bool(nx), 'no output of another contract is left out', w and g.describe(w))
        ck.hold(S, g.foreach(OTH, None, complete=True), 'all other contracts are visited')
        w = g.reach([t for _, t, _ in g.edges(['next ' + OTH])], lambda n, e: okt(n, e) or e is None and any(lm(l, ['next ' + OTH, 'end ' + OTH]) for _, ls in n.succ for l in ls), None, lambda l: lm(l, own + ['end ' + CAF]))
        ck.ob(S, w is None, 'all outputs of another contract are visited', w and g.describe(w))
    ck.hold(S, g.must(None, ['end ' + s for s in src1]), 'the blank transitions of all contracts are made')

    def inner(outer, inn, what):
        st = [t for _, t, _ in g.edges(['next ' + s for s in outer])]
        hd = {n.id for n, _, _ in g.edges(['next ' + s for s in outer] + ['end ' + s for s in outer])}
        w = g.reach(st, lambda n, e: okt(n, e) or e is None and n.id in hd, None, lambda l: lm(l, ['end ' + s for s in inn] + (own if direct else [])))
        ck.ob(S, w is None and bool(st), what, w and g.describe(w))
    inner(src1, src2, 'all outputs of a contract are visited')
    inner(src2, src, 'all assignments of an output are visited')
    st3 = [t for _, t, _ in g.edges(['next ' + s for s in src])]
    hd3 = {n.id for n, _, _ in g.edges(['next ' + s for s in src] + ['end ' + s for s in src])}
    for what, es in (('spent', ins), ('reassigned', own_)):
        w = g.reach(st3, lambda n, e: okt(n, e) or e is None and n.id in hd3, lambda e: e in es)
        ck.ob(S, w is None, 'every assignment is %s' % what, w and g.describe(w))
    # closing methods
    M = ['TxoSeal::method(%s)' % show(e.args[0]) for e in meth]
    st2 = [t for _, t, _ in g.edges(['next ' + s for s in src2])]
    again = ['next ' + s for s in src2] + ['end ' + s for s in src2]
    both = {'tapret': [x + ' is OpretFirst' for x in M] + [x + ' isnot TapretFirst' for x in M] + again, 'opret': [x + ' is TapretFirst' for x in M] + [x + ' isnot OpretFirst' for x in M] + again}
    ck.ob(S, bool(g.edges(both['tapret'][:1])) and bool(g.edges(both['opret'][:1])), 'outputs are told apart by closing method')
    brole = {}
    for e in ins + own_:
        b = show(root(e.args[0]))
        brole.setdefault(b, set())
        brole[b] |= roles(g, st2, lambda x: x is e, both)
    ck.ob(S, sorted(map(sorted, brole.values())) == [['opret'], ['tapret']], 'state is spent and reassigned by the transition of its closing method: %s' % sorted(map(sorted, brole.values())))
    outs = {}
    for e in g.events('add'):
        if keys(e.args[1]) in e2:
            outs.setdefault(g.a.site('add', e.node), []).append(e)
    orole = {k: roles(g, st2, lambda x: x in es, both) for k, es in outs.items()}
    for r in both:
        here = [e for k, es in outs.items() if orole[k] == {r} for e in es]
        w = g.reach(st2, lambda n, e: okt(n, e) or e is None and any(lm(l, again) for _, ls in n.succ for l in ls), lambda e: e in here, lambda l: lm(l, both[r][:-len(again)]))
        ck.ob(S, w is None and bool(here), 'each %s output is listed as closed' % r, w and g.describe(w))
    # completion
    pairs = set()
    kinds = lambda t: {x[0] for y in alts(t) if y.op == 'upd' for x in y.a[1]}
    infos = [e for e in g.events('TransitionInfo::new') if 'blank_builder#' in show(e.args[0])]
    ck.ob(S, bool(infos), 'blank transitions are completed')
    arrays = [l[1] for n in g.nodes for _, ls in n.succ for l in ls if l[0] == 'some' and l[1].op == 'agg' and 'blank_builder#' in show(l[1])]
    seen = False
    for a in arrays:
        for _, t in a.a[2]:
            if t.op == 'agg' and len(t.a[2]) >= 2:
                seen = True
                b = {show(root(x)) for x in alts(t.a[2][0][1])}
                pairs |= {(x, k) for x in b for k in kinds(t.a[2][1][1])}
    if not seen:
        for e in infos:
            t = e.args[0]
            bs = [b for b in brole if b in show(t)]
            own_b = [b for b in brole if pat(TB + 'complete_transition(%s*' % b).match(show(t))]
            pairs |= {(b, k) for b in own_b or bs for k in kinds(e.args[1])}
    ck.ob(S, {b for b, _ in pairs} == set(brole), 'the builders of both closing methods are completed')
    for b, k in sorted(pairs):
        ck.ob(S, k in orole and orole[k] == brole.get(b), 'a blank transition is listed with the outputs it spends: %s' % k)
    has = [TB + 'has_inputs(*blank_builder#*']
    leave = {n.id for n, _, _ in g.edges(['next ' + s for s in src1] + ['end ' + s for s in src1])}
    gone = lambda n, e: okt(n, e) or e is None and n.id in leave
    for a in {x for x in arrays}:
        is_ = lambda l, k: l[0] == k and l[1] is a
        w = g.reach([t for _, t, _ in g.edges(lambda l: is_(l, 'some'))], gone, None, lambda l: is_(l, 'none'))
        ck.ob(S, w is None, 'both blank transitions are looked at', w and g.describe(w))
    if not seen:
        for b in brole:
            mine = lambda t: b in show(t) and not any(o in show(t) for o in brole if o != b)
            w = g.reach([t for _, t, _ in g.edges(['next ' + s for s in src1])], gone,
                        lambda e: e in infos and mine(e.args[0]) or e.name == 'add' and mine(e.args[1]),
                        lambda l: l[0] == 'b' and not l[2] and mine(l[1]) and pat(has[0]).match(show(l[1])) is not None)
            ck.ob(S, w is None, 'both blank transitions are looked at', w and g.describe(w))
    info = lambda e: e in infos
    okinfo = ['TransitionInfo::new(*blank_builder#* is Ok']
    nxt = {n.id for n, _, _ in g.edges(has + ['!' + has[0]])} | {n.id for n, _, _ in g.edges(['next ' + s for s in src1] + ['end ' + s for s in src1])}
    stop = lambda n, e: okt(n, e) or e is None and n.id in nxt
    w = g.reach([t for _, t, _ in g.edges(has)] or [g.a.entry], stop, info)
    ck.ob(S, w is None, 'a blank transition which spends is completed', w and g.describe(w))
    w = g.reach([t for _, t, _ in g.edges(okinfo)] or [g.a.entry], stop, lambda e: e.name in ('add', 'Dichotomy::with', 'TransitionDichotomy::with') and any('TransitionInfo::new(' in show(x) for x in e.args))
    ck.ob(S, w is None, 'a completed blank transition is kept', w and g.describe(w))
    nx1 = {n.id for n, _, _ in g.edges(['next ' + s for s in src1] + ['end ' + s for s in src1])}
    kept = lambda e: e.name == 'add' and m(e.args[1], ['*Dichotomy*TransitionInfo::new(*blank_builder#*', '{Dichotomy*blank_builder#*'])
    w = g.reach([t for _, t, _ in g.edges(okinfo)] or [g.a.entry], lambda n, e: okt(n, e) or e is None and n.id in nx1, kept, lambda l: lm(l, ['(0 == len(*TransitionInfo::new(*']))
    ck.ob(S, w is None, 'the blank transitions of a contract are put into the batch', w and g.describe(w))
    for n, r in g.rets():
        for x in okval(r):
            b = x
            while b.op == 'upd':
                b = b.a[0]
            ck.ob(S, b.op == 'agg' and any('blank_builder#' in show(y) for y in [field(b, 'blanks')]), 'the batch contains the blank transitions')
    propagate(ck, S, g, ['Stock::contracts_assigning', 'Stock::contract_assignments_for'])
    for e in (TB + 'complete_transition', 'TransitionInfo::new'):
        propagate(ck, S, g, [e])
    for k in ('#0', '#1'):
        w = g.reach([n for n in g.nodes if any(x.name == 'Stock::blank_builder' and show(x.res).startswith('Stock::blank_builder' + k) for x in n.events)], okt, None, lambda l: lm(l, 'Stock::blank_builder%s(* is Ok' % k))
        ck.ob(S, w is None, 'a failure to make a blank transition is returned', w and g.describe(w))
