"""stash: signatures and trust"""
from rules import *

RULE = '''MIR of the signature import, closures inlined: a signature is stored only past the trust test of the level recorded for
its own identity (or the default level if none is recorded), each signature passing the test is stored, earlier signatures
of the content are kept, and the recorded level of a known identity is never changed. The trust predicates are evaluated
for every level from their MIR and the declared order of the levels.'''
FLOOR = 15
ADT = 'TrustLevel'
SIG = ['each($2)', '(each($2).0, each($2).1)']
DEFAULTS = ['default:TrustLevel()', 'default<>', 'TrustLevel::Unknown']
EXACT = re.compile(r'^get\(\$0\.identities(\+<.*>)?, each\(\$2\)\.0\)@Some$')
LEVELS = ['Malicious', 'Unknown', 'Untrusted', 'Trusted', 'Ultimate']


def check(ck):
    p = ck.p
    adt = p.adt(ADT)
    vs = p.adts[adt]['variants']
    ck.ob(ADT, [v['name'] for v in sorted(vs, key=lambda v: v['discr'])] == LEVELS, 'levels are ordered from malicious to ultimate')
    rank = {v['name']: v['discr'] for v in vs}
    for f, least in (('should_accept', 'Unknown'), ('should_use', 'Trusted'), ('must_use', 'Ultimate')):
        fn = p.find(f, ADT)
        for v, t in variant_terms(p, adt):
            g = ck.graph(G(p, fn, argterms=[t]))
            for _, r in g.rets():
                for x in alts(r):
                    b = value(x, rank)
                    ck.ob(ADT + '::' + f, b == (rank[v] >= rank[least]), '%s(%s) = %s' % (f, v, show(x)))
    fn = [x for x in p.by_name['default'] if x.selfadt == adt]
    ck.ob(ADT + '::default', len(fn) == 1, 'there is one default level')
    for x in fn:
        g = ck.graph(G(p, x))
        ck.ob(ADT + '::default', {show(r) for _, r in g.rets()} == {'TrustLevel::Unknown'}, 'an unrecorded identity has the unknown level')
    # import
    S = 'import_sigs'
    g = ck.graph(G(p, p.find(S, 'MemStash', 'StashWriteProvider'), ['TrustLevel::*']))
    lv = '*get($0.identities*each($2).0)@Some*'
    ok = ['TrustLevel::should_accept(%s)' % lv, '!(%s < TrustLevel::Unknown)' % lv, '(%s >= TrustLevel::Unknown)' % lv,
          '!(%s == TrustLevel::Malicious)' % lv, '(TrustLevel::Unknown <= %s)' % lv]
    pure = ['TrustLevel::should_accept(%s)' % d for d in DEFAULTS]
    ok += pure
    bad = ['!' + x if not x.startswith('!') else x[1:] for x in ok]
    okp, badp = ok, bad
    # results of several tests, each of one level, which were put together
    several = lambda l, ps: l[0] == 'b' and l[1].op == 'phi' and all(lm(('b', a, l[2]), ps) for a in alts(l[1]))
    ok, bad = okp + [lambda l: several(l, okp)], badp + [lambda l: several(l, badp)]
    # the level tested is the one recorded or the default one
    tested = {show(z) for _, _, ls in g.edges(ok + bad) for l in ls if lm(l, ok + bad) for a in alts(l[1]) for x in (a.a[1:] if a.op == 'call' else a.a)
              if hasattr(x, 'op') for z in alts(x)}
    ck.ob(S, any(EXACT.match(t) for t in tested), 'the level recorded is tested')
    for t in sorted(tested):
        ck.ob(S, t in DEFAULTS + ['TrustLevel::Malicious'] or EXACT.match(t), 'the level recorded is tested: ' + cutstr(t, 200))
    # apart by whether a level is recorded
    rec = lambda l: lm(l, ['get($0.identities*, each($2).0) is *'])
    g2 = ck.graph(G(p, p.find(S, 'MemStash', 'StashWriteProvider'), ['TrustLevel::*'], split=rec))
    seen = set()
    for n, _, ls in g2.edges(ok + bad):
        known = {l[2] for l in n.hist if rec(l)}
        if known != {'Some'}:
            continue
        for l in ls:
            if lm(l, ok + bad):
                for a in alts(l[1]):
                    for x in (a.a[1:] if a.op == 'call' else a.a):
                        for z in alts(x) if hasattr(x, 'op') else ():
                            fit = EXACT.match(show(z)) is not None
                            fit = fit or a.op != 'call' and show(z) in ('TrustLevel::Unknown', 'TrustLevel::Malicious')
                            seen |= known
                            ck.ob(S, fit, 'if a level is recorded it is tested: %s' % cutstr(show(z), 200))
    ck.ob(S, 'Some' in seen, 'a recorded level is tested: %s' % sorted(seen))
    stored = [e for e in g.events('add') if m(e.args[1], SIG)]
    ck.ob(S, bool(stored), 'signatures are stored')
    ck.hold(S, g.only_if(lambda e: e in stored, ok), 'a signature is stored only if its identity is acceptable')
    st = [t for _, t, _ in g.edges(['next $2'])]
    w = g.reach(st, lambda n, e: e is not None and e in stored, None, lambda l: lm(l, ok))
    ck.ob(S, w is None, 'each signature is tested on its own', w and g.describe(w))
    ck.hold(S, g.foreach('$2', lambda e: e in stored, unless=bad), 'every acceptable signature is stored')
    for e in g.events(['add', 'remove', 'clear', 'retain']):
        if e in stored:
            ck.ob(S, e.dst.startswith('_') or e.dst.startswith('$0.sigs[$1]'), 'stored under the signed content: ' + e.dst, loc=e.loc)
        elif e.dst == '$0.identities':
            ck.ob(S, e.name == 'add' and m(field(e.args[1], '0'), 'each($2).0') and all(show(a) in DEFAULTS or EXACT.match(show(a)) for a in alts(field(e.args[1], '1'))),
                  'only the default level is recorded: %s' % show(e.args[-1]), loc=e.loc)
            ck.hold(S, g.only_if(lambda z: z is e, ['get($0.identities*, each($2).0) is None']), 'a recorded level is never changed')
        elif e.dst == '$0.sigs':
            ck.ob(S, e.name == 'add' and m(field(e.args[1], '0'), '$1') and any('add(%s)' % x in show(field(e.args[1], '1')) for x in SIG),
                  'the signatures are stored under their content: %s' % cutstr(show(e.args[-1])), loc=e.loc)
            ck.hold(S, g.only_if(lambda z: z is e, ['get($0.sigs, $1) is None']), 'known signatures are kept', loc=e.loc)
        elif not e.dst.startswith('_'):
            ck.ob(S, False, 'nothing else is changed: ' + e.dst, loc=e.loc)
    keep = [e for e in stored if e.dst.startswith('$0.sigs[$1]')] + [e for e in g.events('add') if e.dst == '$0.sigs']
    keep += [e for e in g.events('extend') if m(e.args[0], 'get($0.sigs, $1)@Some*') and any('add(%s)' % x in show(e.args[1]) for x in SIG)]
    ck.hold(S, g.must(lambda e: e in keep, ['end $2']), 'signatures end up in the stash')
    coll = [e for e in stored if e.dst.startswith('_')]
    for e in coll:
        ck.hold(S, follows(g, e, lambda z: z in keep), 'collected signatures are stored')
    # reading
    f = 'get_trust'
    g = ck.graph(G(p, p.find(f, 'MemStash', 'StashReadProvider')))
    got = 'get($0.identities, $1)'
    ck.ob(f, {show(x) for _, r in g.rets() for v in okval(r) for x in alts(v)} <= {'default<>', 'default:TrustLevel()', 'TrustLevel::Unknown', got + '@Some'},
          'the recorded level is returned')
    ck.ob(f, any(mays(v, got + '@Some') for _, r in g.rets() for v in okval(r)), 'the recorded level is returned')
    f = 'sigs_for'
    g = ck.graph(G(p, p.find(f, 'MemStash', 'StashReadProvider')))
    ck.ob(f, {show(v) for _, r in g.rets() for v in okval(r)} <= {'get($0.sigs, $1)', 'Option::None', 'Option::Some(get($0.sigs, $1)@Some)'},
          'the stored signatures are returned')


def value(t, rank):
    """truth value of a comparison of levels"""
    s = show(t)
    if s in ('true', 'false'):
        return s == 'true'
    neg = False
    while s.startswith('!'):
        neg, s = not neg, s[1:]
    mm = re.match(r'\((?:\w+::)*(\w+) (<=|<|>=|>|==|!=) (?:\w+::)*(\w+)\)$', s)
    if not mm or mm.group(1) not in rank or mm.group(3) not in rank:
        return None
    a, b = rank[mm.group(1)], rank[mm.group(3)]
    r = {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[mm.group(2)]
    return r != neg
