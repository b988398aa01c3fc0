"""merging two views of the same data"""
import re
from rules import *

RULE = '''MIR of every merge function, evaluated for each pair of variants of the merged values: an assignment reveals its seal
(state) in the result exactly if one of the sides reveals it, and each part is taken from a side which reveals it;
containers pair items of equal position and keep every item of both sides; operations and witnesses with
different identifiers are never merged; anchors of both closing methods survive; errors of the parts propagate.'''
FLOOR = 70
ASSIGN = {'Confidential': (0, 0), 'ConfidentialSeal': (0, 1), 'ConfidentialState': (1, 0), 'Revealed': (1, 1)}
T = 'MergeReveal'


def pairs(p, adt):
    for n, x in variant_terms(p, adt, mk('param', 0, 'p0')):
        for k, y in variant_terms(p, adt, mk('param', 1, 'p1')):
            yield n, k, x, y


def check(ck):
    p = ck.p
    assign(ck, p)
    typed(ck, p)
    ops(ck, p)
    bundle(ck, p)
    witness(ck, p)
    anchors(ck, p)


def assign(ck, p):
    S = 'merge of assignments'
    fn = p.find('merge_reveal', 'Assign', T)
    for n, k, x, y in pairs(p, p.adt('Assign')):
        g = ck.graph(G(p, fn, ['Conceal::*', 'path:*conceal*'], argterms=[x, y]))
        want = tuple(a | b for a, b in zip(ASSIGN[n], ASSIGN[k]))
        oks = [v for _, r in g.rets() for v in okval(r)]
        ck.ob(S, bool(oks) and not [1 for _, r in g.rets() if mays(r, 'Result::Err(*')], '%s with %s is merged' % (n, k))
        for v in oks:
            s = show(v)
            w = re.fullmatch(r'Assign::(\w+)\{seal: \$([01])@(\w+)\.seal, state: \$([01])@(\w+)\.state, lock: \$([01])@(\w+)\.lock\}', s)
            ok = bool(w) and ASSIGN.get(w[1]) == want and ASSIGN[w[3]][0] == want[0] and ASSIGN[w[5]][1] == want[1]
            ck.ob(S, ok, '%s with %s reveals what either side reveals: %s' % (n, k, s))


def typed(ck, p):
    S = 'merge of assignment lists'
    fn = p.find('merge_reveal', 'TypedAssigns', T)
    for n, k, x, y in pairs(p, p.adt('TypedAssigns')):
        g = ck.graph(G(p, fn, ['MergeReveal::*'], argterms=[x, y]))
        oks = [v for _, r in g.rets() for v in okval(r)]
        if n != k:
            ck.ob(S, not oks, '%s with %s are never merged' % (n, k))
            continue
        a, b = '$0@' + n, '$1@' + k
        it = ['MergeReveal::merge_reveal(each(%s), each(%s))' % (a, b), 'MergeReveal::merge_reveal(each(%s), each(%s))' % (b, a)]
        ck.ob(S, bool(oks), '%s lists are merged' % n)
        for v in oks:
            ck.ob(S, m(v, ['TypedAssigns::%s(empty<>+<add(%s@Ok)>)' % (n, i) for i in it]), 'the %s list consists of merged items: %s' % (n, show(v)))
        errs = [i + ' is Err' for i in it]
        ck.hold(S, g.foreach(a, E('add', None, [i + '@Ok' for i in it]), unless=errs + ['end ' + b], complete=False), 'every %s item is merged and kept' % n)
        ck.hold(S, g.must(lits=['end ' + a, 'end ' + b]), 'all %s items are visited' % n)
        ck.hold(S, g.never_after(errs, target=lambda z, e: e is None and z.ret is not None and mays(z.ret, 'Result::Ok(*')), 'an item which fails to merge is an error')
    S = 'merge of assignment maps'
    g = ck.graph(G(p, p.find('merge_reveal', 'Assignments', T), ['MergeReveal::*']))
    it = ['MergeReveal::merge_reveal(each($0).1, each($1).1)', 'MergeReveal::merge_reveal(each($1).1, each($0).1)']
    same = ['(each($0).0 == each($1).0)', '(each($1).0 == each($0).0)']
    add = lambda e: e.name == 'add' and m(field(e.args[1], '0'), ['each($0).0', 'each($1).0']) and m(field(e.args[1], '1'), [i + '@Ok' for i in it])
    ck.hold(S, g.foreach('$0', add, unless=[i + ' is Err' for i in it] + ['end $1'], complete=False), 'the lists of every type are merged and kept')
    ck.hold(S, g.must(lits=['end $0', 'end $1']), 'all types are visited')
    ck.hold(S, g.only_if(add, same), 'only lists of the same type are merged')
    for _, r in g.rets():
        for v in okval(r):
            ck.ob(S, m(v, ['empty<>+<add((each($%d).0, %s@Ok))>' % (j, i) for i in it for j in (0, 1)]), 'the map consists of merged lists: %s' % show(v))
    ck.hold(S, g.never_after([i + ' is Err' for i in it], target=lambda z, e: e is None and z.ret is not None and mays(z.ret, 'Result::Ok(*')), 'a list which fails to merge is an error')


def ops(ck, p):
    for t in ('Genesis', 'Transition', 'Extension'):
        S = 'merge of ' + t
        g = ck.graph(G(p, p.find('merge_reveal', t, T), ['MergeReveal::*']))
        a, b = 'Operation::id($0)', 'Operation::id($1)'
        same = ['(%s == %s)' % (a, b), '(%s == %s)' % (b, a)]
        mg = ['MergeReveal::merge_reveal($0.assignments, $1.assignments)', 'MergeReveal::merge_reveal($1.assignments, $0.assignments)']
        ck.hold(S, g.must(lits=same), 'operations with different ids are never merged')
        ck.hold(S, g.must(lits=[x + ' is Ok' for x in mg]), 'an error of the assignments propagates')
        oks = [v for _, r in g.rets() for v in okval(r)]
        ck.ob(S, bool(oks), 'equal operations are merged')
        for v in oks:
            ck.ob(S, m(v, ['$%d[.assignments:=%s@Ok]' % (i, x) for i in (0, 1) for x in mg]), 'only the assignments change: %s' % show(v))
        ck.hold(S, g.ret_only_if('Result::Err(MergeRevealError::OperationMismatch*', ['!' + x for x in same]), 'equal operations are not refused')


def bundle(ck, p):
    S = 'merge of bundles'
    g = ck.graph(G(p, p.find('merge_reveal', 'TransitionBundle', T), ['MergeReveal::*']))
    muts = [e for e in g.events(['add', 'remove', 'clear', 'retain'])]
    shape = 0
    for x, y in (('$0', '$1'), ('$1', '$0')):
        src, each = y + '.known_transitions', 'each(%s.known_transitions)' % y
        adds = []
        for e in g.events('add'):
            if m(field(e.args[1], '0'), [each + '.0']) and show(e.args[0]).startswith(x + '.known_transitions'):
                ok = all(m(v, [each + '.1', 'MergeReveal::merge_reveal(get(%s.known_transitions*, %s.0)@Some, %s.1)@Ok' % (x, each, each),
                               'MergeReveal::merge_reveal(%s.1, get(%s.known_transitions*, %s.0)@Some)@Ok' % (each, x, each)])
                         for v in alts(field(e.args[1], '1')))
                ck.ob(S, ok, 'the other or the merged transition is kept: %s' % cutstr(show(e.args[1])), loc=e.loc)
                adds.append(e)
        if not adds:
            continue
        shape += 1
        mg = ['MergeReveal::merge_reveal(get(%s.known_transitions*' % x + '*', 'MergeReveal::merge_reveal(%s.1, get(*' % each]
        ck.hold(S, g.foreach(src, lambda e: e in adds, unless=[q + ' is Err' for q in mg]), 'every transition of the other bundle ends up in the result')
        for e in muts:
            if e in adds or show(e.args[0]).startswith('empty<>'):
                continue
            ck.ob(S, e.name == 'remove' and m(e.args[1], each + '.0') and show(e.args[0]).startswith(x + '.known_transitions'),
                  'nothing but the merged transition is taken out: %s %s' % (e.name, e.dst), loc=e.loc)
            ck.hold(S, g.between(['next ' + src], lambda z: z in adds,
                                 unless=['get(%s.known_transitions*, %s.0) is None' % (x, each)], target=lambda n, z: z is None and n.ret is not None and mays(n.ret, 'Result::Ok(*')),
                    'a transition taken out is put back')
        safe = ['get(%s.known_transitions*, %s.0) is None' % (x, each), '!contains(%s.known_transitions*, %s.0)' % (x, each)] + [q + ' is Ok' for q in mg]
        w = g.reach([t for _, t, _ in g.edges(['next ' + src])], lambda n, e: e is not None and e in adds, None, lambda l: lm(l, safe))
        ck.ob(S, w is None, 'a known transition is never replaced by the other one', w and g.describe(w))
        known = ['get(%s.known_transitions*, %s.0) is Some' % (x, each)]
        merged = lambda z: any(mays(t, q + '@Ok') for t in [field(z.args[1], '1')] for q in mg) if z.name == 'add' and z in adds else False
        ck.hold(S, g.between(known, merged, unless=[q + ' is Err' for q in mg]), 'transitions known to both are merged')
        for _, r in g.rets():
            for v in okval(r):
                ck.ob(S, show(v).startswith('%s[.known_transitions:=' % x) and show(v).count('[.') == 1, 'only the known transitions change: %s' % cutstr(show(v)))
    ck.ob(S, shape == 1, 'the transitions of one bundle are added to the other')
    ck.hold(S, g.never_after(['MergeReveal::merge_reveal(* is Err'], target=lambda z, e: e is None and z.ret is not None and mays(z.ret, 'Result::Ok(*')), 'a transition which fails to merge is an error')
    more, fits = [], []
    for x in ('len($0.input_map)', 'len($1.input_map)'):
        y = 'len($*.known_transitions+<*)'
        more += ['(%s < %s)' % (x, y), '(%s > %s)' % (y, x), '!(%s >= %s)' % (x, y), '!(%s <= %s)' % (y, x)]
        fits += ['!(%s < %s)' % (x, y), '!(%s > %s)' % (y, x), '(%s >= %s)' % (x, y), '(%s <= %s)' % (y, x)]
    ck.hold(S, g.must(lits=fits), 'a merged bundle with more transitions than inputs is refused')
    ck.hold(S, g.ret_only_if('Result::Err(MergeRevealError::InsufficientInputs*', more), 'a bundle which fits its inputs is not refused')


def witness(ck, p):
    S = 'merge of witnesses'
    fn = p.find('merge_reveal', 'PubWitness')
    ids = {'Txid': ['$%d@Txid'], 'Tx': ['Tx::txid($%d@Tx)']}
    for n, k, x, y in pairs(p, p.adt('PubWitness')):
        g = ck.graph(G(p, fn, ['Tx::txid'], argterms=[x, y]))
        a, b = ids[n][0] % 0, ids[k][0] % 1
        same = ['(%s == %s)' % (a, b), '(%s == %s)' % (b, a)]
        ck.hold(S, g.must(lits=same), '%s with %s of different transactions are never merged' % (n, k))
        want = ['PubWitness::Tx($%d@Tx)' % i for i, v in ((0, n), (1, k)) if v == 'Tx'] or ['PubWitness::Txid($0@Txid)', 'PubWitness::Txid($1@Txid)']
        oks = [v for _, r in g.rets() for v in okval(r)]
        ck.ob(S, bool(oks), '%s with %s can be merged' % (n, k))
        for v in oks:
            ck.ob(S, m(v, want), '%s with %s gives the fuller one: %s' % (n, k, show(v)))
        ck.hold(S, g.ret_only_if('Result::Err(*', ['!' + q for q in same]), '%s with %s of the same transaction are merged' % (n, k))
    for f, tbl in (('txid', {'Txid': ['$0@Txid'], 'Tx': ['Tx::txid($0@Tx)']}), ('tx', {'Txid': ['Option::None'], 'Tx': ['Option::Some($0@Tx)']})):
        for v, t in variant_terms(p, p.adt('PubWitness')):
            g = ck.graph(G(p, p.find(f, 'PubWitness'), ['Tx::txid'], argterms=[t]))
            for _, r in g.rets():
                ck.ob('PubWitness::' + f, m(r, tbl[v]), '%s of %s: %s' % (f, v, show(r)))
    fn = [f for f in p.by_name['merge_reveal'] if 'XChain' in f.path]
    ck.ob(S, len(fn) == 1, 'there is one merge for witnesses of any chain')
    for f in fn:
        for n, k, x, y in pairs(p, p.adt('XChain')):
            g = ck.graph(G(p, f, ['PubWitness::*'], argterms=[x, y]))
            oks = [v for _, r in g.rets() for v in okval(r)]
            if n == k and n != 'Other':
                mg = ['PubWitness::merge_reveal($0@%s, $1@%s)' % (n, n), 'PubWitness::merge_reveal($1@%s, $0@%s)' % (n, n)]
                ck.ob(S, bool(oks) and all(m(v, ['XChain::%s(%s@Ok)' % (n, q) for q in mg]) for v in oks), '%s witnesses are merged: %s' % (n, [show(v) for v in oks]))
            else:
                ck.ob(S, not oks, '%s with %s are never merged' % (n, k))


def anchors(ck, p):
    S = 'merge of anchors'
    fn = p.find('merge_reveal', 'AnchorSet')
    part = {'Tapret': {'tapret': '$%d@Tapret'}, 'Opret': {'opret': '$%d@Opret'}, 'Double': {'tapret': '$%d@Double.tapret', 'opret': '$%d@Double.opret'}}
    for n, k, x, y in pairs(p, p.adt('AnchorSet')):
        g = ck.graph(G(p, fn, ['*Anchor::*'], argterms=[x, y]))
        want, merges = {}, []
        for s in ('tapret', 'opret'):
            a, b = part[n].get(s), part[k].get(s)
            if a and b:
                mg = ['*Anchor::merge_reveal(%s, %s)' % (a % 0, b % 1), '*Anchor::merge_reveal(%s, %s)' % (b % 1, a % 0)]
                merges.append(mg)
                want[s] = [q + '@Ok' for q in mg]
            elif a or b:
                want[s] = [a % 0 if a else b % 1]
        oks = [v for _, r in g.rets() for v in okval(r)]
        ck.ob(S, bool(oks), '%s with %s can be merged' % (n, k))
        for v in oks:
            if len(want) == 2:
                pats = ['AnchorSet::Double{tapret: %s, opret: %s}' % (t, o) for t in want['tapret'] for o in want['opret']]
            else:
                (s, q), = want.items()
                pats = ['AnchorSet::%s(%s)' % (s.capitalize(), z) for z in q]
            ck.ob(S, m(v, pats), '%s with %s keeps the anchors of both methods: %s' % (n, k, show(v)))
        for mg in merges:
            ck.hold(S, g.must(lits=[q + ' is Ok' for q in mg]), '%s with %s: an error of merging anchors propagates' % (n, k))
    for f, yes in (('has_tapret', ('Tapret', 'Double')), ('has_opret', ('Opret', 'Double'))):
        for v, t in variant_terms(p, p.adt('AnchorSet')):
            g = ck.graph(G(p, p.find(f, 'AnchorSet'), argterms=[t]))
            for _, r in g.rets():
                ck.ob('AnchorSet::' + f, show(r) == ('true' if v in yes else 'false'), '%s of %s: %s' % (f, v, show(r)))
