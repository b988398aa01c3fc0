"""witness bundles: closing methods, revealing"""
import re
from rules import *

RULE = '''MIR of the witness bundle constructors, mutators and listings, evaluated for each variant of the anchored bundles: the
proof, its Merkle path and its bundle always travel together and stay in the slot of their closing method; a bundle can
be built only from a proof and a bundle of the same method; a second bundle is added only for the other method; seals are
revealed in every matching assignment of exactly the bundle asked for; transitions are added only if the bundle commits
to them.'''
FLOOR = 70
SIDE = {'Tapret': {'tapret': '@Tapret'}, 'Opret': {'opret': '@Opret'}, 'Double': {'tapret': '@Double.tapret', 'opret': '@Double.opret'}}


def check(ck):
    p = ck.p
    ab, wb = p.adt('AnchoredBundles'), p.adt('WitnessBundle')
    p0 = mk('param', 0, 'p0')
    # construction
    S = 'ClientBundle'
    cb = p.adt('ClientBundle')
    for fn in p.aggs_of(cb):
        if fn.name in ('clone', 'strict_decode', 'strict_dumb', 'new') or 'serde' in fn.path.lower() or 'Visitor' in fn.path:
            continue
        g = ck.graph(G(p, fn))
        ck.hold(S, g.only_if(lambda e: e.kind == 'agg' and e.name == cb, ['(*close_method == Proof::method(*', '(Proof::method(* == *close_method)']),
                '%s builds a bundle only of a single method' % p.short(fn))
    g = ck.graph(G(p, p.find('new', 'ClientBundle')))
    same = ['($2.close_method == Proof::method($1))', '(Proof::method($1) == $2.close_method)']
    ck.hold(S, g.must(lits=same), 'a bundle is built only if its closing method is the one of the proof')
    for _, r in g.rets():
        ck.ob(S, m(r, 'ClientBundle{mpc_proof: $0, dbc_proof: $1, bundle: $2}'), 'the bundle keeps its parts: %s' % show(r))
    S = 'AnchoredBundles::from'
    fn = [f for f in p.by_name['from'] if f.selfadt == ab and 'From<' in f.path]
    ck.ob(S, len(fn) == 1, 'a client bundle can be anchored')
    for f in fn:
        g = ck.graph(G(p, f, ['ClientBundle::new']))
        for v in ('Opret', 'Tapret'):
            pats = ['AnchoredBundles::%s(%s)' % (v, c) for c in built('$0', v)]
            ck.hold(S, g.ret_only_if(pats[0], ['$0.dbc_proof is ' + v]) if any(m(x, pats[0]) for _, r in g.rets() for x in alts(r)) else
                    g.ret_only_if(pats[1], ['$0.dbc_proof is ' + v]), 'the slot is chosen by the proof')
        allp = ['AnchoredBundles::%s(%s)' % (v, c) for v in ('Opret', 'Tapret') for c in built('$0', v)]
        for _, r in g.rets():
            for x in alts(r):
                ck.ob(S, m(x, allp), 'the proof and its bundle are kept in the slot of the proof: %s' % show(x))
        ck.ob(S, len({show(x) for _, r in g.rets() for x in alts(r)}) == 2, 'both methods are supported')
    # second bundle
    S = 'WitnessBundle::into_double'
    f = p.find('into_double', 'WitnessBundle')
    oth = {'Opret': 'Tapret', 'Tapret': 'Opret'}
    for v, t in variant_terms(p, ab, field(p0, 'anchored_bundles')):
        a = agg(wb, 'WitnessBundle', [('pub_witness', field(p0, 'pub_witness')), ('anchored_bundles', t)])
        g = ck.graph(G(p, f, ['ClientBundle::new', 'ToWitnessId::*'], argterms=[a]))
        oks = [x for _, r in g.rets() for x in okval(r)]
        if v == 'Double':
            ck.ob(S, not oks, 'a witness with both bundles accepts no other one')
            continue
        o = oth[v]
        ck.ob(S, bool(oks), 'a witness with one bundle accepts one of the other method')
        ck.hold(S, g.must(lits=['$1.dbc_proof is ' + o]), 'a bundle of the same method is refused')
        ck.hold(S, g.ret_only_if('Result::Err(*', ['$1.dbc_proof is ' + v, '$1.dbc_proof isnot *']), 'a bundle of the other method is accepted')
        own = '$0.anchored_bundles@' + v
        for x in oks:
            s = field(x, 'anchored_bundles')
            pats = ['AnchoredBundles::Double{tapret: %s, opret: %s}' % ((own, c) if v == 'Tapret' else (c, own)) for c in built('$1', o)]
            ck.ob(S, m(s, pats) and m(field(x, 'pub_witness'), '$0.pub_witness'), 'the known bundle is kept and the new one is put in its own slot: %s' % show(s))
    # listings
    for fnname, trait, item in (('bundles', None, '{0}.bundle'), ('into_bundles', None, '{0}.bundle'),
                                ('iter', None, '(Anchor::new({0}.mpc_proof, conv:DbcProof({0}.dbc_proof)), {0}.bundle)'),
                                ('into_iter', 'IntoIterator', '(Anchor::new({0}.mpc_proof, conv:DbcProof({0}.dbc_proof)), {0}.bundle)')):
        S = 'AnchoredBundles::' + fnname
        fn = [f for f in p.by_name[fnname] if f.selfadt == ab]
        ck.ob(S, len(fn) == 1, 'the listing exists')
        for f in fn:
            for v, t in variant_terms(p, ab):
                g = ck.graph(G(p, f, ['Anchor::*'], argterms=[t]))
                want = sorted(item.format('$0' + x) for x in SIDE[v].values())
                got = sorted(plain(e.args[1]) for e in g.events('add'))
                ck.ob(S, got == want, 'the listing of %s has each bundle with its own proof once: %s' % (v, got))
                for e in g.events('add'):
                    ck.hold(S, g.must(lambda z: z is e), 'each bundle is listed', loc=e.loc)
                for _, r in g.rets():
                    ck.ob(S, all('add(%s)' % w in plain(r) for w in want) and not show(r).startswith('Iterator::'), 'the listing is returned: %s' % cutstr(show(r)))
    # seals
    S = 'WitnessBundle::reveal_seal'
    f = p.find('reveal_seal', 'WitnessBundle')
    rv = 'TypedAssignsExt::reveal_seal'
    for v, t in variant_terms(p, ab, field(p0, 'anchored_bundles')):
        a = agg(wb, 'WitnessBundle', [('pub_witness', field(p0, 'pub_witness')), ('anchored_bundles', t)])
        g = ck.graph(G(p, f, ['TypedAssignsExt::*'], argterms=[a]))
        bs = {s: '$0.anchored_bundles%s.bundle' % x for s, x in SIDE[v].items()}
        same = {s: ['($1 == TransitionBundle::bundle_id(%s))' % b, '(TransitionBundle::bundle_id(%s) == $1)' % b] for s, b in bs.items()}
        every = [l for x in same.values() for l in x]
        evs = g.events(rv)
        ck.ob(S, bool(evs), '%s: seals are revealed' % v)
        ck.hold(S, g.only_if(E(rv), every), '%s: seals are revealed only in a bundle with the given id' % v)
        ck.hold(S, g.ret_only_if('true', every), '%s: success is reported only for a bundle with the given id' % v)
        for s in same:
            ck.hold(S, g.ret_only_if('false', ['!' + l for l in same[s]]), '%s: failure is reported only past the test of the %s bundle' % (v, s))
            ck.hold(S, g.never_after(same[s], target=lambda z, e: e is None and z.ret is not None and mays(z.ret, 'false')), '%s: the %s bundle is found by its id' % (v, s))
        for e in evs:
            ck.ob(S, m(e.args[1], '$2'), 'the given seal is revealed', loc=e.loc)
        if v != 'Double':
            b, = bs.values()
            tr = b + '.known_transitions'
            asg = 'each(%s).1.assignments' % tr
            for e in evs:
                ck.ob(S, m(e.args[0], 'each(%s).1' % asg), '%s: seals are revealed in assignments of the transitions: %s' % (v, show(e.args[0])), loc=e.loc)
            ck.hold(S, g.foreach(asg, E(rv), complete=False, target=lambda z, e: e is None and z.ret is not None and mays(z.ret, 'true')), '%s: in assignments of every type' % v)
            seen = every_lit(tr)
            ck.hold(S, g.ret_only_if('true', seen), '%s: all known transitions are visited' % v)
            ck.hold(S, g.between(['next ' + tr], lambda e: False, unless=['end ' + asg, 'next ' + tr]), '%s: each transition is searched' % v)
        else:
            for e in g.events(kind='agg'):
                s = show(e.res) if e.res is not None else ''
                for k in bs:
                    if s.startswith('Option::Some(&mut<') and s.endswith('.%s.bundle>)' % k):
                        ck.hold(S, g.only_if(lambda z: z is e, same[k]), 'the %s bundle is chosen by its own id' % k)
    S = 'TypedAssigns::reveal_seal'
    f = p.find('reveal_seal', 'TypedAssigns', 'TypedAssignsExt')
    for v, t in variant_terms(p, p.adt('TypedAssigns')):
        g = ck.graph(G(p, f, ['Conceal::*'], argterms=[t]))
        src = '$0@' + v
        it = 'each(%s)' % src
        for old, new in (('Confidential', 'ConfidentialState'), ('ConfidentialSeal', 'Revealed')):
            val = 'Assign::%s{seal: $1, state: %s@%s.state, lock: %s@%s.lock}' % (new, it, old, it, old)
            q = lambda e: e.kind == 'store' and m(e.args[-1], val)
            same = ['(Conceal::conceal($1) == %s@%s.seal)' % (it, old), '(%s@%s.seal == Conceal::conceal($1))' % (it, old)]
            ck.ob(S, any(q(e) for e in g.events(kind='store')), '%s: a %s item is revealed in place' % (v, old))
            ck.hold(S, g.only_if(q, same), '%s: a %s item is revealed only by its own seal' % (v, old))
            ck.hold(S, g.between(same, q), '%s: a %s item of that seal is revealed' % (v, old))
        for e in g.events(kind='store'):
            ck.ob(S, m(e.args[-1], ['Assign::%s{seal: $1, state: %s@%s.state, lock: %s@%s.lock}' % (b, it, a, it, a)
                                    for a, b in (('Confidential', 'ConfidentialState'), ('ConfidentialSeal', 'Revealed'))]),
                  '%s: nothing else is changed: %s' % (v, cutstr(show(e.args[-1]))), loc=e.loc)
        ck.hold(S, g.must(lits=['end ' + src]), '%s: all items are visited' % v)
        for old in ('Confidential', 'ConfidentialSeal'):
            ck.hold(S, g.between(['next ' + src], lambda e: False, unless=['%s is %s' % (it, old), '%s isnot *' % it] + [
                '%s is %s' % (it, z) for z in ('Revealed', 'ConfidentialState', 'Confidential', 'ConfidentialSeal') if z != old]), '%s: each item is examined' % v)
    # transitions
    S = 'ClientBundle::reveal_transition'
    g = ck.graph(G(p, p.find('reveal_transition', 'ClientBundle')))
    i = 'Operation::id($1)'
    x = 'each($0.bundle.input_map).1'
    rel = ['(%s == %s)' % (i, x), '(%s == %s)' % (x, i), 'contains(values($0.bundle.input_map), %s)' % i]
    add = lambda e: e.name == 'add' and str(e.dst) == '$0.bundle.known_transitions' and m(field(e.args[1], '0'), i) and m(field(e.args[1], '1'), '$1')
    ck.hold(S, g.must(lits=rel), 'an unrelated transition is refused')
    ck.hold(S, g.only_if(add, rel), 'only a transition the bundle commits to is added')
    ck.hold(S, g.ret_only_if('Result::Ok(true)', [], add), 'a new transition is stored')
    kn = ['get($0.bundle.known_transitions, %s) is Some' % i, 'contains($0.bundle.known_transitions, %s)' % i]
    ck.hold(S, g.ret_only_if('Result::Ok(false)', kn), 'only a known transition is reported as known')
    ck.hold(S, g.ret_only_if('Result::Err(*', ['end $0.bundle.input_map', '!contains(values*']), 'a related transition is accepted')
    for e in g.events(['add', 'remove', 'clear', 'retain']) + g.events(kind='store'):
        ck.ob(S, add(e), 'nothing else is changed', loc=e.loc)


def every_lit(src):
    return ['end ' + src]


def plain(x):
    """The text of a value; the proof of a method as DbcProof is its conversion"""
    return re.sub(r'DbcProof::(Opret|Tapret)\(', 'conv:DbcProof(', show(x).replace('EAnchor::', 'Anchor::'))


def built(b, v):
    return ['ClientBundle{mpc_proof: %s.mpc_proof, dbc_proof: %s.dbc_proof@%s, bundle: %s.bundle}' % (b, b, v, b),
            'ClientBundle::new(%s.mpc_proof, %s.dbc_proof@%s, %s.bundle)' % (b, b, v, b)]
