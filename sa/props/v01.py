"""containers: the validation gate"""
from rules import *

RULE = '''MIR of the consignment validation with helpers inlined, and all places which build a validated container. The
validator is given the consignment under test with its own schema and contract id, the network flag and the resolver of the
caller; success is returned only if the validity of that status is full validity, judged after the last failure was added to
it, with the very consignment and status. Every bundle of every witness is compared with the ones seen before and every
transition with its id and with the input map of its bundle, a mismatch being a failure. A validated container has private
fields, is built or copied nowhere else, and gives no mutable access; the stock imports contracts and transfers only as such.'''
FLOOR = 22
ASSUMPTIONS = ['rgb-core validates what it is shown (its code is outside of the repository)']
ST = ['IndexedConsignment::*', 'WitnessBundle::anchored_bundles']
AF = 'Status::add_failure'


def gate(ck, S, adt, inner, own):
    p = ck.p
    a = p.adt(adt)
    for f in p.adts[a]['variants'][0]['fields']:
        ck.ob(S, f[2] != 'pub' and not f[2].startswith('in rgbstd') or f[2].count('::') >= 2, 'the field %s is private to its module: %s' % (f[0], f[2]))
    n = 0
    for f in p.aggs_of(a):
        if f.h == own.h:
            n += 1
            continue
        if f.selfadt == a and f.name == 'clone':
            g = ck.graph(G(p, f))
            for _, r in g.rets():
                ck.ob(S, m(r, '%s{validation_status: $0.validation_status, %s: $0.%s}' % (adt, inner, inner)) or m(r, '$0'), 'a copy has the same content: %s' % cutstr(show(r)))
            continue
        us = p.users(f)
        ok = len(us) and all(u.h == own.h for u in us) and 'pub' != f.j.get('vis', '')
        n += bool(ok)
        ck.ob(S, ok, '%s is built in %s' % (adt, f.path))
    ck.ob(S, n > 0, '%s is built by validation' % adt)
    for f in p.fns.values():
        if f.selfadt == a and f.j.get('kind') != 'closure':
            b = p.body(f)
            ck.ob(S, not (b.argc and b.locals[1].replace(' ', '').startswith('&mut') and adt in b.locals[1]), '%s takes no mutable reference' % f.path)


def check(ck):
    p = ck.p
    S = 'Consignment::validate'
    fn = p.find('validate', 'Consignment')
    g = ck.graph(G(p, fn, ST))
    val = 'Validator::validate(IndexedConsignment::new($0), $1, $2, ($0.schema, *contract_id($0.genesis)))'
    evs = g.events('Validator::validate')
    ck.ob(S, bool(evs), 'the validator is used')
    for e in evs:
        ck.ob(S, m(e.args[0], 'IndexedConsignment::new($0)'), 'the consignment itself is validated: %s' % cutstr(show(e.args[0])), loc=e.loc)
        ck.ob(S, m(e.args[1], '$1'), 'the resolver of the caller is used: %s' % cutstr(show(e.args[1])), loc=e.loc)
        ck.ob(S, m(e.args[2], '$2'), 'the network flag of the caller is used: %s' % cutstr(show(e.args[2])), loc=e.loc)
        ck.ob(S, m(e.args[3], '($0.schema, *contract_id($0.genesis))'), 'the state is that of the own schema and contract: %s' % cutstr(show(e.args[3])), loc=e.loc)
    ok = [x for _, r in g.rets() for x in okval(r)]
    ck.ob(S, bool(ok), 'validation can succeed')
    for x in ok:
        ck.ob(S, m(field(x, 'consignment'), '$0'), 'the validated consignment is the given one: %s' % cutstr(show(field(x, 'consignment'))))
        for st in alts(field(x, 'validation_status')):
            ck.ob(S, m(st, [val, val + '+<*']), 'the status is that of the validator: %s' % cutstr(show(st)))
    # full validity, judged at the end
    def valid(l):
        t = l[1]
        s = lit(l)
        return any(x in s for x in ('== Validity::Valid)', '(Validity::Valid ==', ' is Valid')) and not s.startswith('!') and 'Status::validity(' + val[:26] in s or \
            l[0] in ('is',) and l[2] == 'Valid' and 'Status::validity(' in show(t)
    ck.hold(S, g.must(lits=[valid]), 'success needs full validity')
    last = [n for n in g.nodes if any(e.kind == 'call' and e.name == AF for e in n.events)]
    w = g.reach(last, lambda n, e: e is None and n.ret is not None and mays(n.ret, 'Result::Ok(*'), lambda e: e.kind == 'call' and e.name == 'Status::validity')
    ck.ob(S, w is None, 'the validity is judged after the last failure is added', w and g.describe(w))
    for e in g.events('Status::validity'):
        ck.ob(S, all(m(x, [val, val + '+<*']) for x in alts(e.args[0])), 'the validity of the status of the validator is judged: %s' % cutstr(show(e.args[0])), loc=e.loc)
    # uniqueness of bundles and their commitments to transitions
    ab = ['WitnessBundle::anchored_bundles(each($0.bundles)*)']
    bn = 'each(WitnessBundle::anchored_bundles(each($0.bundles)*)).1'
    bid = 'TransitionBundle::bundle_id(%s)' % bn
    kt = bn + '.known_transitions'
    key = 'each(%s).0' % kt
    heads = {n.id for n, _, _ in g.edges(['next $0.bundles', 'end $0.bundles'])}
    ck.hold(S, g.foreach('$0.bundles', None), 'the bundles of all witnesses are compared')
    ck.hold(S, g.after(['next $0.bundles'], None, unless=['end ' + x for x in ab], target=lambda n, e: e is None and n.id in heads), 'all bundles of a witness are compared')
    fail = E(AF)
    ck.hold(S, g.foreach(ab, fail, unless=['!contains(empty<>+<*add(%s)*>, %s)' % (bid, bid), '!contains(empty<>, %s)' % bid], complete=False), 'a bundle which is present already is a failure')
    ck.hold(S, g.foreach(ab, anyof(E('add', None, bid), fail), complete=False), 'each bundle is remembered')
    inner = {n.id for n, _, _ in g.edges(['next ' + x for x in ab] + ['end ' + x for x in ab])}
    ck.hold(S, g.after(['next ' + x for x in ab], None, unless=['end ' + kt], target=lambda n, e: e is None and n.id in inner), 'all transitions of a bundle are compared')
    tid = '*id(each(%s).1)' % kt
    ck.hold(S, g.foreach(kt, fail, unless=['(%s == %s)' % (tid, key), '(%s == %s)' % (key, tid)], complete=False), 'a transition under a foreign id is a failure')
    inm = 'each(%s.input_map).1' % bn
    ck.hold(S, g.foreach(kt, fail, unless=['(%s == %s)' % (x, y) for k in (key, tid) for x, y in ((inm, k), (k, inm))] + ['contains(*%s*, %s)' % (inm, k) for k in (key, tid)], complete=False),
            'a transition missing in the input map of its bundle is a failure')
    # deviations which are only warned about
    warn = E('Status::add_warning')
    tr = ['($0.transfer == cparam<TRANSFER>)', '(cparam<TRANSFER> == $0.transfer)']
    ck.hold(S, g.must(anyof(warn, fail), lits=tr, target=lambda n, e: e is None and n.ret is not None), 'a consignment of the other kind is reported')
    any_ret = lambda n, e: e is None and n.ret is not None
    a, b = '*id(each($0.ifaces).0)', 'each($0.ifaces).1.iface_id'
    ck.hold(S, g.foreach('$0.ifaces', anyof(warn, fail), unless=['(%s == %s)' % (a, b), '(%s == %s)' % (b, a)], target=any_ret), 'an implementation of another interface is reported')
    t = 'each($0.terminals).0'
    bids = ['each(*bundle_ids(IndexedConsignment::new($0)*))', 'each(*IndexedConsignment::new($0)*)*', bid]
    ck.hold(S, g.foreach('$0.terminals', anyof(warn, fail), unless=['(%s == %s)' % z for x in bids for z in ((t, x), (x, t))] + ['contains(*, %s)' % t, '*get(*, %s) is Some' % t], target=any_ret),
            'a terminal without its bundle is reported')
    gate(ck, 'ValidConsignment', 'ValidConsignment', 'consignment', fn)
    # kits
    kit = p.find('validate', 'Kit')
    gate(ck, 'ValidKit', 'ValidKit', 'kit', kit)
    g = ck.graph(G(p, kit))
    for _, r in g.rets():
        for x in okval(r):
            ck.ob('Kit::validate', m(field(x, 'kit'), '$0'), 'the validated kit is the given one: %s' % cutstr(show(field(x, 'kit'))))
    # the stock accepts only validated containers
    for f, ty in (('import_kit', 'ValidKit'), ('import_contract', 'ValidConsignment<false>'), ('accept_transfer', 'ValidConsignment<true>')):
        fn = p.find(f, 'Stock')
        b = p.body(fn)
        ck.ob('Stock', ty in b.locals[2], '%s takes a validated container: %s' % (f, b.locals[2]))
    # nothing else public reaches the import
    for f in ('consume_kit', 'consume_consignment', 'update_from_consignment', 'index_consignment'):
        for x in p.by_name[f]:
            us = [u for u in p.users(x)]
            for u in us:
                if u.name in ('import_kit', 'import_contract', 'accept_transfer', 'consume_consignment') or u.name == f:
                    continue
                pub = u.j.get('vis') == 'pub'
                ck.ob('Stock', not pub, '%s is reached from %s' % (f, u.path))
