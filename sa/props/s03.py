"""state: history entering the contract state"""
from rules import *

RULE = '''MIR of the state updates from bundles and consignments, helpers inlined down to the state writer and the resolver.
Every known transition of every witness bundle is added with the id of its own witness and with the status the resolver
gave for that very witness; an extension is added if and only if a transition spends it, with the witness and status of
that transition; an unknown contract, a resolver failure or a writer failure is returned as an error. A witness is
selected only if the state reports it as valid.'''
FLOOR = 20
ST = ['ContractStateWrite::*', 'StateWriteProvider::*', 'StateReadProvider::*', '*::resolve_pub_witness_ord', 'ConsignmentExt::*',
      'WitnessBundle::known_transitions', '*::to_witness_id']
RES = 'ResolveWitness::resolve_pub_witness_ord'
ADD = 'ContractStateWrite::add_transition'
EXT = 'ContractStateWrite::add_extension'


def propagate(ck, S, g, names):
    for e in names:
        ck.ob(S, bool(g.events(e)), '%s is reached' % e)
        w = g.reach([n for n in g.nodes if any(x.kind == 'call' and x.name == e for x in n.events)], lambda z, x: x is None and z.ret is not None and mays(z.ret, 'Result::Ok(*'),
                    None, lambda l: lm(l, e + '(* is Ok'))
        ck.ob(S, w is None, 'a failure of %s is returned' % e, w and g.describe(w))


def check(ck):
    p = ck.p
    S = 'update_from_bundle'
    g = ck.graph(G(p, p.find(S, 'State'), ST))
    up = 'StateWriteProvider::update_contract($0.provider, $1)'
    src = '$2.known_transitions'
    ck.ob(S, bool(g.events('StateWriteProvider::update_contract')), 'a contract is updated')
    for e in g.events('StateWriteProvider::update_contract'):
        ck.ob(S, m(e.args[1], '$1'), 'the given contract is updated: %s' % show(e.args[1]), loc=e.loc)
    ord_ = ['%s($4, $3)@Ok' % RES]
    for e in g.events(ADD):
        ck.ob(S, show(e.args[0]).startswith(up + '@Ok@Some'), 'the state of the contract is written: %s' % cutstr(show(e.args[0])), loc=e.loc)
        ck.ob(S, m(e.args[1], 'each(%s).1' % src), 'a transition of the bundle is added: %s' % cutstr(show(e.args[1])), loc=e.loc)
        ck.ob(S, m(e.args[2], '$3'), 'it is added with the witness of the bundle: %s' % cutstr(show(e.args[2])), loc=e.loc)
        ck.ob(S, m(e.args[3], ord_), 'it is added with the status of its witness: %s' % cutstr(show(e.args[3])), loc=e.loc)
    ck.hold(S, g.foreach(src, E(ADD)), 'every known transition is added')
    ck.hold(S, g.must(lits=[up + '@Ok is Some']), 'an unknown contract is an error')
    propagate(ck, S, g, [ADD, 'StateWriteProvider::update_contract', RES])

    S = 'update_from_consignment'
    g = ck.graph(G(p, p.find(S, 'State'), ST))
    reg = 'StateWriteProvider::register_contract($0.provider, ConsignmentExt::schema($1), ConsignmentExt::genesis($1))'
    ck.hold(S, g.must(E('StateWriteProvider::register_contract', '$0.provider', 'ConsignmentExt::schema($1)', 'ConsignmentExt::genesis($1)')), 'the contract is registered with its schema and genesis')
    wb = 'each(ConsignmentExt::bundled_witnesses($1))'
    wid = ['*(%s.pub_witness*)' % wb, '*%s.pub_witness*' % wb]
    kt = 'WitnessBundle::known_transitions(%s)' % wb
    ts = [kt, '*%s*known_transitions*' % wb]
    evs = g.events(ADD)
    ck.ob(S, bool(evs), 'transitions are added')
    for e in evs:
        ck.ob(S, show(e.args[0]).startswith(reg + '@Ok'), 'the state of the contract is written: %s' % cutstr(show(e.args[0])), loc=e.loc)
        ck.ob(S, m(e.args[1], ['each(%s)*' % t for t in ts]), 'a transition of a witness bundle is added: %s' % cutstr(show(e.args[1])), loc=e.loc)
        ck.ob(S, m(e.args[2], wid), 'it is added with its own witness: %s' % cutstr(show(e.args[2])), loc=e.loc)
        w = show(e.args[2])
        ck.ob(S, show(e.args[3]) in ('%s($2, %s)@Ok' % (RES, w), '%s(&$2, %s)@Ok' % (RES, w)), 'it is added with the status of that witness: %s' % cutstr(show(e.args[3])), loc=e.loc)
    heads = {n.id for n, _, _ in g.edges(['next ConsignmentExt::bundled_witnesses($1)', 'end ConsignmentExt::bundled_witnesses($1)'])}
    ck.hold(S, g.foreach('ConsignmentExt::bundled_witnesses($1)', None), 'all witness bundles are visited')
    ck.hold(S, g.after(['next ConsignmentExt::bundled_witnesses($1)'], None, unless=['end ' + t for t in ts], target=lambda n, e: e is None and n.id in heads),
            'all transitions of each witness bundle are visited')
    ck.hold(S, g.foreach(ts, E(ADD), complete=False), 'every visited transition is added')
    propagate(ck, S, g, [ADD, EXT, 'StateWriteProvider::register_contract', RES])
    # extensions
    ex = 'each(ConsignmentExt::extensions($1))*'
    idx = ['Operation::id(%s)' % ex, '*id(%s)' % ex]
    evs = g.events(EXT)
    for e in evs:
        ck.ob(S, m(e.args[1], ex), 'an extension of the consignment is added: %s' % cutstr(show(e.args[1])), loc=e.loc)
        got = ['get(*, %s)@Some.%d' % (i, k) for i in idx for k in (0, 1)]
        ck.ob(S, m(e.args[2], got[::2]) or m(e.args[2], wid), 'it is added with the witness recorded for it: %s' % cutstr(show(e.args[2])), loc=e.loc)
        ck.ob(S, m(e.args[3], got[1::2]) or m(e.args[3], [RES + '($2, %s)@Ok' % w for w in wid]), 'it is added with the status recorded for it: %s' % cutstr(show(e.args[3])), loc=e.loc)
    looked = ['get(*, %s) is Some' % i for i in idx]
    if g.edges(looked):
        ck.hold(S, g.only_if(EXT, looked), 'only extensions spent by a transition are added')
        ck.hold(S, spent(g, looked), 'every extension spent by a transition is added')
    # what is recorded for an extension
    def rec(e):
        return e.kind == 'call' and e.name == 'add' and len(e.args) > 1 and show(field(e.args[1], '1')).startswith('(') and 'pub_witness' in show(field(e.args[1], '1'))
    recs = g.events(pred=rec)
    ck.ob(S, bool(recs), 'the spending of extensions is recorded')
    for e in recs:
        v = field(e.args[1], '1')
        w = field(v, '0')
        ck.ob(S, m(w, wid), 'the witness of the spending transition is recorded: %s' % cutstr(show(w)), loc=e.loc)
        ck.ob(S, m(field(v, '1'), RES + '($2, %s)@Ok' % '*') and show(field(v, '1')) == '%s($2, %s)@Ok' % (RES, show(w)), 'the status of the spending transition is recorded: %s' % cutstr(show(field(v, '1'))), loc=e.loc)
    op = '*.inputs*.prev_out.op*'
    same = ['(%s == %s)' % (a, b) for a, b in (('*id(*', op), (op, '*id(*'))] + ['contains(*, %s)' % op, 'get(*, %s) is Some' % op, '*get*(*, %s) is Some' % op]
    ck.hold(S, g.only_if(rec, same), 'only spent extensions are recorded')
    ck.hold(S, g.between(same, rec, unless=['get(* is Some', 'each(*', '!*used*', 'get*(*@Some*'], target=lambda n, e: e is None and any(lm(l, 'end *.inputs*') for _, ls in n.succ for l in ls)),
            'every spent extension is recorded')
    st = [t for _, t, _ in g.edges([ADD + '(* is Ok'])]
    th = {n.id for n, _, _ in g.edges(['next ' + t for t in ts] + ['end ' + t for t in ts])}
    w = g.reach(st, lambda n, e: e is None and n.id in th, None, lambda l: lm(l, ['end *extensions($1)*', 'end each(*.inputs', 'end {*.inputs*}']))
    ck.ob(S, w is None, 'each transition is compared with all extensions', w and g.describe(w))
    S = 'select_valid_witness'
    g = ck.graph(G(p, p.find(S, 'State'), ST))
    v = 'StateReadProvider::is_valid_witness($0.provider, each($1))'
    ck.hold(S, g.must(lits=[v + '@Ok']), 'a witness is selected only if it is valid')
    for _, r in g.rets():
        for x in okval(r):
            ck.ob(S, m(x, 'each($1)'), 'one of the given witnesses is selected: %s' % show(x))
    ck.hold(S, g.ret_only_if('*AbsentValidWitness*', ['end $1']), 'the search fails only after all witnesses were tried')
    w = g.reach([t for _, t, _ in g.edges([v + '@Ok'])], lambda n, e: e is None and n.ret is not None and not mays(n.ret, 'Result::Ok(*'))
    ck.ob(S, w is None, 'a valid witness is selected', w and g.describe(w))


def spent(g, looked):
    st = [t for _, t, _ in g.edges(looked)]
    heads = {n.id for n, _, _ in g.edges(['next ConsignmentExt::extensions($1)', 'end ConsignmentExt::extensions($1)'])}
    q = lambda e: e.kind == 'call' and e.name == EXT
    p = g.reach(st, lambda n, e: e is None and (n.id in heads or (n.ret is not None and mays(n.ret, 'Result::Ok(*'))), q)
    if p:
        return False, g.describe(p)
    # the loop which adds is left at its end only
    ls = {(n.frame.id, n.block) for n, _, _ in g.edges(looked)}
    ends = g.edges(['end ConsignmentExt::extensions($1)'])
    good = {(n.id, t.id) for n, t, _ in ends}
    starts = [t for _, t, _ in g.edges(['end ConsignmentExt::bundled_witnesses($1)'])]
    p = g.reach(starts, lambda n, e: e is None and n.ret is not None and mays(n.ret, 'Result::Ok(*'), None, None, cut_step=lambda n, t: (n.id, t.id) in good)
    return p is None, p and g.describe(p)
