"""visibility of contract state"""
from rules import *

RULE = '''Each reader of owned state enumerates the stored assignments of its own kind; from MIR: an assignment is yielded
only if it is on the queried output, of the queried type, and has either no witness or a witness known and not archived
to the contract view; and every stored assignment satisfying this is yielded. The view of a contract contains every
witness mentioned by its global or owned state, with its current status.'''
FLOOR = 30
KINDS = {'rights': 'rights', 'fungible': 'fungibles', 'data': 'data', 'attach': 'attach'}
VAL = {'rights': None, 'fungible': '.state.value', 'data': '.state.value', 'attach': '.state.file'}


def witness_conds(x):
    w = x + '.witness'
    got = 'get($0.filter, %s@Some)' % w
    return [('its witness is absent or known and not archived',
             [w + ' is None', got + '@Some isnot Archived', got + '@Some is Mined', got + '@Some is Tentative',
              got + '@Some is Ignored', 'WitnessOrd::is_valid(%s@Some)' % got, '!(%s@Some == WitnessOrd::Archived)' % got,
              '!(WitnessOrd::Archived == %s@Some)' % got],
             [got + ' is None', got + '@Some is Archived', '!WitnessOrd::is_valid(%s@Some)' % got,
              '(%s@Some == WitnessOrd::Archived)' % got, '(WitnessOrd::Archived == %s@Some)' % got])]


def check(ck):
    p = ck.p
    for k, f in KINDS.items():
        src = '$0.unfiltered.' + f
        x = 'each(%s)' % src
        op = ['(%s == XChain::to_outpoint(%s.seal))' % ('$1', x), '(XChain::to_outpoint(%s.seal) == $1)' % x]
        ty = ['($2 == %s.opout.ty)' % x, '(%s.opout.ty == $2)' % x]
        conds = witness_conds(x)
        item = x + VAL[k] if VAL[k] else x
        listing(ck, 'ContractStateAccess::' + k, p.find(k, 'MemContract', 'ContractStateAccess'), src, item, [
            ('it is on the queried output', op, ['!' + s for s in op]),
            ('it has the queried type', ty, ['!' + s for s in ty])] + conds, what='the %s reader' % k, count=k == 'rights')
        listing(ck, 'ContractStateRead::%s_all' % k, p.find(k + '_all', 'MemContract', 'ContractStateRead'), src, x, conds,
                what='the %s list' % k)
    # construction of the view
    S = 'StateReadProvider::contract_state'
    g = ck.graph(G(p, p.find('contract_state', 'MemState', 'StateReadProvider')))
    src = '$0.witnesses'
    w = 'each(%s)' % src
    un = 'get($0.contracts, $1)@Some'
    mention = ["(%s.0 == %s.witness@Some)"]
    ck.hold(S, g.must(lits=['get($0.contracts, $1) is Some']), 'an unknown contract is an error')
    for n, r in g.rets():
        for v in okval(r):
            ck.ob(S, m(field(v, 'unfiltered'), un), 'the stored contract state is used: %s' % show(field(v, 'unfiltered')))
            ck.ob(S, m(field(v, 'filter'), 'empty<>+<add((%s.0, %s.1))>' % (w, w)) or m(field(v, 'filter'), '*+<add(%s)>' % w),
                  'the view maps witnesses to their current status: %s' % show(field(v, 'filter')))
    used = sorted({lit(l) for _, _, ls in g.edges(['*witness*']) for l in ls})
    for f in list(KINDS.values()):
        c = '%s.%s' % (un, f)
        lits = ['(each(%s).witness == Option::Some(%s.0))' % (c, w), '(Option::Some(%s.0) == each(%s).witness)' % (w, c),
                '(%s.0 == each(%s).witness@Some)' % (w, c), '(each(%s).witness@Some == %s.0)' % (c, w)]
        ck.hold(S, g.after(lits, E('add', None, ['(%s.0, %s.1)' % (w, w), w]),
                           target=lambda n, e: e is None and (n.ret is not None or any(
                               lm(l, ['next ' + src, 'end ' + src]) for _, ls in n.succ for l in ls))),
                'a witness of %s is part of the view' % f)
        ck.ob(S, bool(g.edges(lits)), 'witnesses of %s are considered' % f, used)
        ck.hold(S, g.after(['next ' + src], E('add', None, ['(%s.0, %s.1)' % (w, w), w]), unless=['end ' + c],
                           target=lambda n, e: e is None and (n.ret is not None or any(
                               lm(l, ['next ' + src, 'end ' + src]) for _, ls in n.succ for l in ls))),
                'a witness is left out only after all of %s was looked at' % f)
    # witnesses of global state
    c = un + '.global'
    k = 'each(%s).1.known' % c
    tg = lambda n, e: e is None and (n.ret is not None or any(lm(l, ['next ' + src, 'end ' + src]) for _, ls in n.succ for l in ls))
    put = E('add', None, ['(%s.0, %s.1)' % (w, w), w])
    ow = '*each(%s).0.op_witness*' % k
    lits = ['(%s.0 == %s)' % (w, ow), '(Option::Some(%s.0) == %s)' % (w, ow), '(%s == %s.0)' % (ow, w), '(%s == Option::Some(%s.0))' % (ow, w)]
    ck.ob(S, bool(g.edges(lits)), 'witnesses of global state are considered', used)
    ck.hold(S, g.after(lits, put, target=tg), 'a witness of global state is part of the view')
    ck.hold(S, g.after(['next ' + src], put, unless=['end ' + c], target=tg), 'a witness is left out only after all of global state was looked at')
    ck.hold(S, g.after(['next ' + c], put, unless=['end ' + k], target=tg), 'a witness is left out only after all global state of a type was looked at')
    end = ['!' + x for x in lits] + ['each(%s).0.op_witness is Genesis' % k]
    heads = {n.id for n, _, _ in g.edges(['next ' + k, 'end ' + k])}
    x = g.reach([t for _, t, _ in g.edges(['next ' + k])], lambda n, e: (e is None and n.id in heads) or tg(n, e), put, lambda l: lm(l, end))
    ck.ob(S, x is None and bool(heads), 'each piece of global state is compared with the witness', x and g.describe(x))
