"""witness status"""
from rules import *

RULE = '''MIR of the witness refresh, selection and validity test: every recorded witness is resolved unless it is mined below the
given height; a resolved status replaces the recorded one, a failure keeps it and is reported; only resolved witnesses are
counted; no witness is added or removed; a witness is selected only past its own validity test, which reads its own
recorded status.'''
FLOOR = 11


def check(ck):
    p = ck.p
    S = 'update_witnesses'
    g = ck.graph(G(p, p.find(S, 'MemState', 'StateWriteProvider'), ['*::resolve_pub_witness_ord', 'StoreTransaction::*', 'Persisting::*']))
    src = '$0*.witnesses*'
    it = 'each(%s)' % src
    res = 'ResolveWitness::resolve_pub_witness_ord($1, %s.0)' % it
    evs = g.events('ResolveWitness::resolve_pub_witness_ord')
    ck.ob(S, bool(evs), 'witnesses are resolved')
    for e in evs:
        ck.ob(S, m(e.args[1], it + '.0'), 'each witness is resolved by its own id: %s' % show(e.args[1]), loc=e.loc)
    h = 'WitnessPos::height(%s.1@Mined)' % it
    lim = ['$2', '{NonZero(*) | NonZero::new($2)@Some}', '*NonZero::new($2)*', '*$2*']
    old = ['(%s < %s)' % (h, x) for x in lim] + ['!(%s >= %s)' % (h, x) for x in lim] + ['(%s > %s)' % (x, h) for x in lim]
    ck.hold(S, g.foreach(src, E('ResolveWitness::resolve_pub_witness_ord'), unless=old), 'every witness not mined below the height is resolved')
    # outcome
    errs, oks = [res + ' is Err'], [res + ' is Ok']
    fail = lambda e: e.name == 'add' and m(field(e.args[1], '0'), it + '.0') and m(field(e.args[1], '1'), '*%s@Err*' % res)
    ck.ob(S, any(fail(e) for e in g.events('add')), 'failures are collected')
    ck.hold(S, g.between(errs, fail, target=lambda n, e: e is None and n.ret is not None and mays(n.ret, 'Result::Ok(*')), 'a failure is reported')
    ck.hold(S, g.only_if(fail, errs), 'only failures are reported')
    vals = [show(e.args[-1]) for e in g.events(kind='store') if '.witnesses' in e.name or '.witnesses' in str(getattr(e, 'dst', ''))]
    fin = [v for v in vals if '@Ok' in v]
    ck.ob(S, bool(fin), 'resolved statuses are recorded')
    for e in g.events(['remove', 'clear', 'retain']):
        ck.ob(S, False, 'no witness is removed: %s' % e.dst, loc=e.loc)
    emptied = [e for e in g.events(kind='store') if m(e.args[-1], ['empty<>', 'default<>'])]
    filled = lambda e: e.kind == 'store' and '@Ok' in show(e.args[-1])
    if emptied:
        ck.hold(S, g.must(filled), 'the statuses are put back before success')
    # each resolved status is used: the value of a resolved record
    for v in fin:
        if v.startswith('empty<>'):
            # the table is rebuilt
            kept = [e for e in g.events('add') if e.kind == 'call' and not fail(e)]
            for e in kept:
                ck.ob(S, m(field(e.args[1], '0'), it + '.0') and m(field(e.args[1], '1'), [res + '@Ok', it + '.1']), 'a status is recorded for its own witness: %s' % cutstr(show(e.args[1])), loc=e.loc)
            ck.hold(S, g.foreach(src, lambda e: e in kept), 'every witness is kept')
            ck.hold(S, g.between(oks, lambda e: e in kept and mays(field(e.args[1], '1'), res + '@Ok')), 'a resolved status is recorded')
            continue
        ck.ob(S, m_status(v, it, res), 'a status is replaced only by the one resolved for its own witness: %s' % cutstr(v))
    # counting
    inc = [e for n in g.nodes for e in n.events if e.kind == 'assert' and 'Overflow(Add' in e.name]
    ck.ob(S, bool(inc), 'updated witnesses are counted')
    for e in inc:
        ck.ob(S, show(e.args[0]).endswith(', 1>'), 'one by one: %s' % cutstr(show(e.args[0])), loc=e.loc)
    st = [t for _, t, _ in g.edges(['next ' + src])]
    w = g.reach(st, lambda n, e: e is not None and e in inc, None, lambda l: lm(l, oks))
    ck.ob(S, w is None, 'only resolved witnesses are counted', w and g.describe(w))
    ck.hold(S, g.between(oks, lambda e: e in inc, target=lambda n, e: e is None and n.ret is not None and mays(n.ret, 'Result::Ok(*')), 'each resolved witness is counted')
    com = E('StoreTransaction::commit_transaction')
    ck.hold(S, g.must(com), 'the update is committed')
    ck.hold(S, g.must(E('StoreTransaction::begin_transaction')), 'the update is a transaction')
    # validity
    S = 'is_valid_witness'
    g = ck.graph(G(p, p.find(S, 'MemState', 'StateReadProvider')))
    got = 'get($0.witnesses, $1)'
    for _, r in g.rets():
        for x in alts(r):
            ck.ob(S, m(x, ['Result::Ok(WitnessOrd::is_valid(%s@Some))' % got, 'Result::Err(StateInconsistency::AbsentWitness($1))']), 'validity of the recorded status: %s' % show(x))
    ck.hold(S, g.must(lits=[got + ' is Some']), 'an unknown witness is an error')
    S = 'select_valid_witness'
    g = ck.graph(G(p, p.find(S, 'State'), ['StateReadProvider::*']))
    v = 'StateReadProvider::is_valid_witness($0.provider, each($1))'
    ck.hold(S, g.must(lits=[v + '@Ok']), 'only a valid witness is selected')
    ck.hold(S, g.must(lits=[v + ' is Ok']), 'an error of the validity test propagates')
    for _, r in g.rets():
        for x in okval(r):
            ck.ob(S, m(x, 'each($1)'), 'the tested witness is selected: %s' % show(x))
    ck.hold(S, g.ret_only_if('Result::Err(StateError::AbsentValidWitness)', ['end $1']), 'all witnesses are tested')
    st = [t for _, t, _ in g.edges(['next $1'])]
    w = g.reach(st, lambda n, e: e is None and n.ret is not None and mays(n.ret, 'Result::Ok(*'), None, lambda l: lm(l, [v + '@Ok']))
    ck.ob(S, w is None, 'each witness is tested on its own', w and g.describe(w))
    for f in ('update_witnesses',):
        g = ck.graph(G(p, p.find(f, 'State'), ['StateWriteProvider::*']))
        ck.hold('State::' + f, g.must(E('StateWriteProvider::' + f, '$0.provider', '$1', '$2')), 'the update reaches the store')
        g = ck.graph(G(p, p.find(f, 'Stock'), ['State::*']))
        ck.hold('Stock::' + f, g.must(E('State::' + f, '$0.state', '$1', '$2')), 'the update reaches the state')


def m_status(v, it, res):
    import re
    w = re.search(r'\[\[\]\.1:=(.*)\]$', v)
    if not w:
        return False
    x = w[1]
    x = x[1:-1] if x.startswith('{') else x
    parts = [y.strip() for y in split_alts(x)]
    pr = [pat(q) for q in (res + '@Ok', it + '.1')]
    return all(any(q.fullmatch(y) for q in pr) for y in parts)


def split_alts(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '({[<':
            d += 1
        elif c in ')}]>':
            d -= 1
        if c == '|' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    return out + [cur]
