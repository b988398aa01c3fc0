"""batches of transitions made for a payment"""
from rules import *
from engine import OPT

RULE = '''MIR of the transition record, the batch, the pair of transitions and the set of closing methods, helpers inlined. A record is
made only if every spent seal was compared and has the same closing method; it lists the outpoint of every seal, the transition, its
id and that method. Setting the priority stores the nonce in every transition of the batch, and after it the id computed from the
changed transition. Walking a batch or a pair yields all of it; the methods of a batch are the union over all of its transitions, and union
and tests of method sets are checked for all values.'''
FLOOR = 67


def method_sets(ck):
    p = ck.p
    C = p.adt('CloseMethodSet')
    vs = variant_terms(p, C)
    names = [v for v, _ in vs]
    ck.ob('CloseMethodSet', sorted(names) == ['Both', 'OpretFirst', 'TapretFirst'], 'the sets of closing methods: %s' % names)

    def union(a, b):
        return a if a == b else 'Both'

    def full(v):
        return 'CloseMethodSet::' + v
    for f in p.by_name['bitor'] + p.by_name['bitor_assign']:
        if f.derived or 'CloseMethodSet' not in f.path:
            continue
        site = f.path.split('::', 1)[1][-90:]
        assign = f.name == 'bitor_assign'
        oself = 'for std::option::Option<' in f.path
        orhs = not oself and 'Option<' in f.path
        for a, ta in vs:
            for b, tb in vs:
                for none in ((False, True) if oself or orhs else (False,)):
                    A = (agg(OPT, 'None', []) if none else agg(OPT, 'Some', [('0', ta)])) if oself else ta
                    Bt = (agg(OPT, 'None', []) if none else agg(OPT, 'Some', [('0', tb)])) if orhs else tb
                    if none:
                        want = b if oself else a
                    else:
                        want = union(a, b)
                    g = ck.graph(G(p, f, argterms=[A, Bt]))
                    if assign:
                        st = [e for n in g.nodes for e in n.events if e.kind == 'store']
                        got = {show(x) for e in st for x in alts(e.args[-1])}
                        w = 'Option::Some(%s)' % full(want) if oself else full(want)
                        ck.ob(site, got == {w} or not got and show(A) == w, '%s | %s is %s: %s' % (show(A), show(Bt), w, sorted(got)))
                    else:
                        got = {show(x) for _, r in g.rets() for x in alts(r)}
                        ck.ob(site, got == {full(want)}, '%s | %s is %s: %s' % (show(A), show(Bt), want, sorted(got)))
    for name, member in (('has_tapret_first', 'TapretFirst'), ('has_opret_first', 'OpretFirst')):
        t = table(ck, p.find(name, 'CloseMethodSet'), C)
        for v in names:
            w = 'true' if v in (member, 'Both') else 'false'
            ck.ob('CloseMethodSet::' + name, t[v] == {w}, '%s of %s is %s: %s' % (name, v, w, t[v]))
    f = [x for x in p.by_name['from'] if 'CloseMethodSet as' in x.path and 'dbc::Method' in x.path]
    ck.ob('CloseMethodSet::from', len(f) == 1, 'a closing method gives a set')
    for x in f:
        for v in ('OpretFirst', 'TapretFirst'):
            g = ck.graph(G(p, x, argterms=None))
            for w in ('OpretFirst', 'TapretFirst'):
                ck.hold('CloseMethodSet::from', g.ret_only_if('CloseMethodSet::' + w, ['$0 is ' + w, '$0 isnot ' + ('TapretFirst' if w[0] == 'O' else 'OpretFirst')]), 'a method gives the set of itself')
            got = {show(y) for _, r in g.rets() for y in alts(r)}
            ck.ob('CloseMethodSet::from', got == {'CloseMethodSet::OpretFirst', 'CloseMethodSet::TapretFirst'}, 'a method gives the set of itself: %s' % sorted(got))
            break


def check(ck):
    p = ck.p
    method_sets(ck)
    ID = 'Operation::id'
    S = 'TransitionInfo::new'
    g = ck.graph(G(p, p.find('new', 'TransitionInfo'), [ID]))
    vals = [v for _, r in g.rets() for v in okval(r)]
    ck.ob(S, bool(vals), 'a record is made')
    x = 'each($1)'
    for v in vals:
        ck.ob(S, m(field(v, 'id'), ID + '($0)') and m(field(v, 'transition'), '$0'), 'it has the transition and its id')
        ck.ob(S, m(field(v, 'inputs'), 'empty<>+<add(conv:XOutpoint(%s))>*' % x), 'it lists the outpoints of the seals: %s' % cutstr(show(field(v, 'inputs'))))
        ck.ob(S, m(field(v, 'method'), ['TxoSeal::method(slice::first($1)@Some)', 'TxoSeal::method(index($1, 0))', 'TxoSeal::method($1[0])']), 'it has the method of the seals: %s' % cutstr(show(field(v, 'method'))))
        meth = show(field(v, 'method'))
    ck.hold(S, g.foreach('$1', E('add', None, 'conv:XOutpoint(%s)' % x)), 'the outpoint of every seal is listed')
    eq = ['(TxoSeal::method(%s) == %s)' % (x, meth), '(%s == TxoSeal::method(%s))' % (meth, x)]
    ck.ob(S, bool(g.edges(eq)), 'methods are compared')
    ck.hold(S, g.foreach('$1', lambda e: False, unless=eq), 'every seal has the method')
    ck.hold(S, nothing_after(g, ['!' + e for e in eq]), 'a seal of another method is refused')

    for who, parts in (('TransitionInfo', [('', '$0', None)]),
                       ('Batch', [('.main.first', '$0.main.first', None), ('.main.second@Some.0', '$0.main.second@Some', '$0.main.second is None'),
                                  ('.blanks[].first', 'each($0.blanks).first', None), ('.blanks[].second@Some.0', 'each($0.blanks).second@Some', 'each($0.blanks).second is None')])):
        S = who + '::set_priority'
        g = ck.graph(G(p, p.find('set_priority', who), [ID]))
        okr = lambda n, e: e is None and n.ret is not None
        for pre, val, none in parts:
            nonce = lambda e, pre=pre: e.kind == 'store' and e.name == pre + '.transition.nonce' and show(e.args[1]) == '$1'
            ident = lambda e, pre=pre, val=val: e.kind == 'store' and e.name == pre + '.id' and show(e.args[1]) == '%s(%s.transition[.nonce:=$1])' % (ID, val)
            for ev, what in ((nonce, 'the priority is set'), (ident, 'the id is the one of the changed transition')):
                if 'blanks' in pre:
                    ck.hold(S, g.foreach('$0.blanks', ev, unless=[none] if none else (), target=okr), '%s in %s' % (what, val))
                else:
                    w = g.reach([g.a.entry], okr, ev, (lambda l: lm(l, [none])) if none else None)
                    ck.ob(S, w is None, '%s in %s' % (what, val), w and g.describe(w))
        allowed = {pre + s for pre, _, _ in parts for s in ('.transition.nonce', '.id')}
        for n in g.nodes:
            for e in n.events:
                if e.kind == 'store':
                    ck.ob(S, e.name in allowed, 'nothing else is changed: %s' % e.name, loc=e.loc)

    S = 'Batch::close_method_set'
    g = ck.graph(G(p, p.find('close_method_set', 'Batch'), ['BitOrAssign::*', 'BitOr::*', '*::bitor', '*::bitor_assign']))
    okr = lambda n, e: e is None and n.ret is not None
    calls = ['BitOrAssign::bitor_assign', 'BitOr::bitor']
    for t, none, loop in (('$0.main.second@Some.method', '$0.main.second is None', False), ('each($0.blanks).first.method', None, True),
                          ('each($0.blanks).second@Some.method', 'each($0.blanks).second is None', True)):
        ev = lambda e, t=t: e.kind == 'call' and e.name in calls and any(m(a, [t, 'conv:CloseMethodSet(%s)' % t]) for a in e.args)
        if loop:
            ck.hold(S, g.foreach('$0.blanks', ev, unless=[none] if none else (), target=okr), '%s is counted' % t)
        else:
            w = g.reach([g.a.entry], okr, ev, lambda l: lm(l, [none]))
            ck.ob(S, w is None, '%s is counted' % t, w and g.describe(w))
    f0 = '$0.main.first.method'
    starts = any(f0 in show(a) for e in g.events(calls) for a in e.args) or any(g.edges([f0 + ' is ' + v]) for v in ('OpretFirst', 'TapretFirst'))
    ck.ob(S, starts, 'the method of the main transition is counted')
    for n, r in g.rets():
        for v in ('OpretFirst', 'TapretFirst'):
            if mays(r, 'CloseMethodSet::' + v) and r.op == 'agg':
                w = g.reach([g.a.entry], lambda z, e: e is None and z is n, None, lambda l: lm(l, [f0 + ' is ' + v]))
                ck.ob(S, w is None, 'the set starts with the method of the main transition', w and g.describe(w))

    for f, S, want in ((p.find('into_iter', 'Batch', 'IntoIterator'), 'Batch::into_iter', None),):
        g = ck.graph(G(p, f))
        for _, r in g.rets():
            if '$0.main' not in ''.join(show(e.args[1]) for e in g.events('add')):
                ck.ob(S, '$0.main' in show(r) and '{' not in show(r), 'the main transitions are listed: %s' % cutstr(show(r)))
            else:
                w = g.reach([g.a.entry], lambda n, e: e is None and n.ret is not None, E('add', None, '$0.main'))
                ck.ob(S, w is None, 'the main transitions are listed', w and g.describe(w))
            src = field(r, 'iter') if r.op == 'agg' else r
            ck.ob(S, show(src) == '$0.blanks+<add($0.main)>' or {'$0.main', '$0.blanks'} <= set_of(src), 'all transitions are listed: %s' % cutstr(show(r)))
    for f, S in ((p.find('into_iter', 'Dichotomy', 'IntoIterator'), 'Dichotomy::into_iter'), (p.find('iter', 'Dichotomy'), 'Dichotomy::iter')):
        g = ck.graph(G(p, f))
        okr = lambda n, e: e is None and n.ret is not None
        if g.events('add'):
            w = g.reach([g.a.entry], okr, E('add', None, '$0.first'))
            ck.ob(S, w is None, 'the first is listed', w and g.describe(w))
            w = g.reach([g.a.entry], okr, E('add', None, '$0.second@Some'), lambda l: lm(l, ['$0.second is None']))
            ck.ob(S, w is None, 'the second is listed', w and g.describe(w))
            w = g.reach([n for n in g.nodes if any(e.name == 'add' and show(e.args[1]) == '$0.second@Some' for e in n.events)], lambda n, e: e is not None and e.name == 'add' and show(e.args[1]) == '$0.first')
            ck.ob(S, w is None, 'the first comes first')
        else:
            for _, r in g.rets():
                s = show(r)
                ck.ob(S, '$0.first' in s and '$0.second' in s and s.index('$0.first') < s.index('$0.second'), 'both are listed: %s' % cutstr(s))
    for name, want in (('single', ('$0', 'Option::None')), ('double', ('$0', 'Option::Some($1)')), ('with', ('$0', '$1'))):
        g = ck.graph(G(p, p.find(name, 'Dichotomy')))
        for _, r in g.rets():
            ck.ob('Dichotomy::' + name, (show(field(r, 'first')), show(field(r, 'second'))) == want, 'a pair is made of the given: %s' % cutstr(show(r)))
    S = 'Dichotomy::from_iter'
    f = [x for x in p.by_name['from_iter'] if 'Dichotomy' in x.path]
    ck.ob(S, len(f) == 1, 'a pair can be collected')
    for x in f:
        g = ck.graph(G(p, x))
        got = {show(field(v, k)) for _, r in g.rets() for v in alts(r) for k in ('first', 'second')}
        ck.ob(S, {'each($0)', 'Option::Some(each($0))'} <= got <= {'each($0)', 'Option::Some(each($0))', 'Option::None'} or
              got <= {'Iterator::next($0)@Some', 'each($0)', 'Iterator::next($0)', 'Option::None', 'Option::Some(each($0))'} and len(got) > 1, 'a pair has the collected items: %s' % sorted(got))
    # identity of records
    for name, want in (('eq', '($0.id == $1.id)'), ('cmp', 'cmp($0.id, $1.id)'), ('partial_cmp', 'Option::Some(cmp($0.id, $1.id))')):
        f = next(x for x in p.by_name[name] if 'TransitionInfo as' in x.path)
        g = ck.graph(G(p, f))
        for _, r in g.rets():
            ck.ob('TransitionInfo::' + name, show(r) == want, 'records are compared by id: %s' % cutstr(show(r)))


def set_of(t):
    s = show(t)
    return {x for x in ('$0.main', '$0.blanks') if x in s}


def nothing_after(g, lits):
    es = g.edges(lits)
    if not es:
        return False, ['no such condition: %s' % (lits,)]
    w = g.reach([t for _, t, _ in es], g._okt())
    return w is None, w and g.describe(w)
