"""listings of contracts and definitions"""
from rules import *
from props.s03 import propagate

RULE = '''MIR of the listings of the stash and of the stock, lazy sequences enumerated by a synthetic consumer. A listing by class has
a schema if and only if an implementation for the class was found for that very schema, and a contract if and only if its schema is
such; the search considers all interfaces of the class and all implementations of the schema. Each described contract, schema,
implementation and interface takes every field from the object at hand; none is left out; a failure to list is returned.'''
FLOOR = 60
ST = ['*::impl_for', 'Stock::contract_iface_class', 'IfaceWrapper::*']
RD = 'StashReadProvider::'
IDS = 'const<rgbstd::interface::iface::IfaceClass::IFACE_IDS, &[interface::iface::IfaceId]>'


def when(x):
    def q(t):
        good = [y for y in alts(t) if m(y, '*TimeZone::timestamp_opt(Utc, %s, 0)*' % x)]
        return bool(good) and all(y in good or m(y, 'Utc::now()') for y in alts(t))
    return q


def eqs(a, b):
    return ['(%s == %s)' % (a, b), '(%s == %s)' % (b, a)]


def neg(ls):
    return ['!' + x for x in ls]


def fields(ck, S, x, want, loc=None):
    for f, w in want.items():
        ck.ob(S, m(field(x, f), w), '%s is the one of the listed object: %s' % (f, cutstr(show(field(x, f)))), loc=loc)


def check(ck):
    p = ck.p
    M = 'MemStash'
    im = 'StashReadProvider::impl_for($0, each($0.schemata).1)'
    yes, no = [im + ' is Ok'], [im + ' is Err']
    listing(ck, 'schemata_by', p.find('schemata_by', M, 'StashReadProvider'), '$0.schemata', ['each($0.schemata).1'], [('it implements the class', yes, no)], ST, True, 'the listing')
    S = 'geneses_by'
    _, gs = seq(ck, p.find(S, M, 'StashReadProvider'), ST, True)
    ck.ob(S, len(gs) == 1, 'one enumeration')
    gen = 'each($0.geneses).1'
    for g in gs:
        adds = g.events('add')
        ck.ob(S, bool(adds), 'contracts are listed')
        for e in adds:
            ck.ob(S, m(e.args[1], gen), 'contracts are listed: %s' % cutstr(show(e.args[1])), loc=e.loc)
        if g.edges(['next $0.schemata']):
            sid = ['Schema::schema_id(each($0.schemata).1.schema)', 'each($0.schemata).0']
            same = [l for x in sid for l in eqs(x, gen + '.schema_id')]
            ck.hold(S, g.only_if(E('add'), same), 'a contract is listed only under its own schema')
            ck.hold(S, g.only_if(E('add'), yes), 'a contract is listed only if its schema implements the class')
            ck.hold(S, g.foreach('$0.schemata', None), 'all schemata are considered')
            hs = {n.id for n, _, _ in g.edges(['next $0.schemata', 'end $0.schemata'])}
            if g.edges(yes):
                ck.hold(S, g.after(yes, None, unless=['end $0.geneses'], target=lambda n, e: e is None and n.id in hs), 'all contracts are considered for each schema')
            w = g.reach([t for _, t, _ in g.edges(same)], lambda n, e: e is None and (n.ret is not None or any(lm(l, ['next $0.geneses', 'end $0.geneses']) for _, ls in n.succ for l in ls)), E('add'))
            ck.ob(S, w is None, 'each contract of the schema is listed', w and g.describe(w))
        else:
            of = 'StashReadProvider::impl_for($0, get($0.schemata, %s.schema_id)@Some)' % gen
            ck.hold(S, g.only_if(E('add'), [of + ' is Ok']), 'a contract is listed only if its schema implements the class')
            ck.hold(S, g.foreach('$0.geneses', E('add'), unless=[of + ' is Err', 'get($0.schemata, %s.schema_id) is None' % gen]), 'each contract of such a schema is listed')
    # search of an implementation
    S = 'impl_for'
    g = ck.graph(G(p, p.find(S, M, 'StashReadProvider'), ['Iface::*', 'StashReadProvider::iface']))
    own = 'each($1.iimpls).1'
    hit = ['contains(%s, %s.iface_id)' % (IDS, own)] + eqs('each(%s)' % IDS, own + '.iface_id')
    ifc = 'StashReadProvider::iface($0, *each(%s)*)' % IDS
    far = ['Iface::find_abstractable_impl(%s@Ok, $1)' % ifc]
    for _, r in g.rets():
        for x in okval(r):
            for y in alts(x):
                ck.ob(S, m(y, [own] + [f + '@Some' for f in far]), 'an implementation of the schema: %s' % cutstr(show(y)))
    ck.hold(S, g.must(lits=hit + [f + ' is Some' for f in far]), 'it is for an interface of the class')
    noimpl = lambda n, e: e is None and n.ret is not None and mays(n.ret, 'Result::Err(*NoAbstractImpl*')
    ck.hold(S, g.foreach('$1.iimpls', None, unless=hit, target=noimpl), 'all implementations are looked at')
    ck.hold(S, g.foreach(IDS, None, unless=[f + ' is Some' for f in far], target=noimpl), 'all interfaces of the class are tried')
    st = [t for _, t, _ in g.edges(hit + [f + ' is Some' for f in far])]
    w = g.reach(st, noimpl)
    ck.ob(S, w is None, 'an implementation found is returned', w and g.describe(w))
    # tapret commitments
    a = 'each($0.witnesses).1.anchors'
    S = 'taprets'
    _, gs = listing(ck, S, p.find(S, M, 'StashReadProvider'), '$0.witnesses', ['(each($0.witnesses).0, TapretCommitment{*})'],
                    [('it has a tapret anchor', [a + ' is Tapret', a + ' is Double', lambda l: isnot(l, a, 'Opret')], [a + ' is Opret', lambda l: isnot(l, a, 'Tapret') and isnot(l, a, 'Double')])], ST, True, 'the listing')
    for g in gs:
        for e in g.events('add'):
            c = field(e.args[1], '1')
            for f, w in (('mpc', '*id(%s.mpc_proof)'), ('nonce', '*nonce(%s.dbc_proof.path_proof)')):
                ck.ob(S, mf(field(c, f), [w % s for s in (a + '@Tapret', a + '@Double.tapret')]), 'it is the one of the tapret anchor: %s' % cutstr(show(field(c, f))), loc=e.loc)
    S = 'supplements'
    _, gs = seq(ck, p.find(S, M, 'StashReadProvider'), ST, True)
    src = 'get($0.suppl, $1)@Some'
    hs = [g for g in gs if g.edges(['next ' + src])]
    ck.ob(S, len(hs) == 1, 'supplements of the content are listed')
    for g in hs:
        for e in g.events('add'):
            ck.ob(S, m(e.args[1], 'each(%s)' % src), 'supplements of the content are listed: %s' % cutstr(show(e.args[1])), loc=e.loc)
        ck.hold(S, g.foreach(src, E('add')), 'all supplements are listed')
    g = ck.graph(G(p, p.find(S, M, 'StashReadProvider')))
    ck.ob(S, all(okval(r) for _, r in g.rets()), 'a content without supplements is no failure')
    # forwarding
    for f in ('ifaces', 'schemata', 'geneses', 'geneses_by', 'impl_for', 'supplements', 'supplement', 'sigs_for', 'genesis', 'schema', 'bundle', 'witness', 'iface'):
        S = 'Stash::' + f
        fn = p.find(f, 'Stash')
        g = ck.graph(G(p, fn, [RD + '*']))
        a = ''.join(', *$%d*' % i for i in range(1, fn.j['argc']))
        for _, r in g.rets():
            for x in okval(r):
                ck.ob(S, m(x, '%s%s($0.provider%s)@Ok' % (RD, f, a)), 'the answer of the provider is passed on: %s' % cutstr(show(x)))
        ck.ob(S, any(okval(r) for _, r in g.rets()), 'an answer is passed on')
        propagate(ck, S, g, [RD + f])
    # descriptions
    src = RD + '%s($0.stash.provider)@Ok'
    S = 'Stock::contracts'
    L = src % 'geneses'
    x = 'each(%s)' % L
    _, gs = listing(ck, S, p.find('contracts', 'Stock'), L, ['ContractInfo{*}'], (), [RD + '*'], True, 'the listing')
    for g in gs:
        for e in g.events('add'):
            fields(ck, S, e.args[1], {'id': '*contract_id(%s)' % x, 'schema_id': x + '.schema_id', 'issuer': x + '.issuer', 'issued_at': when(x + '.timestamp'), 'testnet': x + '.testnet',
                                      'alt_layers1': x + '.alt_layers1'}, e.loc)
    S = 'Stock::contracts_by'
    L = src % 'geneses_by'
    v = 'Stock::contract_iface_class($0, *contract_id(each(%s)))' % L
    listing(ck, S, p.find('contracts_by', 'Stock'), L, ['IfaceWrapper::info(%s@Ok)' % v], [('its view can be made', [v + ' is Ok'], [v + ' is Err'])], ST + [RD + '*'], True, 'the listing')
    S = 'Stock::schemata'
    L = src % 'schemata'
    x = 'each(%s)' % L
    _, gs = listing(ck, S, p.find('schemata', 'Stock'), L, ['SchemaInfo{*}'], (), [RD + '*'], True, 'the listing', allow=['ImplInfo{*}'])
    i = 'each(%s.iimpls)' % x
    for g in gs:
        for e in g.events('add'):
            if m(e.args[1], 'SchemaInfo{*}'):
                s = x + '.schema'
                fields(ck, S, e.args[1], {'id': '*id(%s)' % s, 'name': s + '.name', 'developer': s + '.developer', 'created_at': when(s + '.timestamp'), 'implements': 'empty<>+<add(ImplInfo{*})>'}, e.loc)
                ck.hold(S, g.foreach(x + '.iimpls', E('add', None, 'ImplInfo{*}'), complete=True, target=lambda n, z, e=e: z is e), 'all implementations are described')
            else:
                fields(ck, S, e.args[1], {'id': '*id(%s.1)' % i, 'iface_id': i + '.1.iface_id', 'iface_name': i + '.0', 'developer': i + '.1.developer', 'created_at': when(i + '.1.timestamp')}, e.loc)
    S = 'Stock::ifaces'
    L = src % 'ifaces'
    x = 'each(%s)' % L
    names = 'empty<>+<add((*id(%s), %s.name))>' % (x, x)
    sup = RD + 'supplement($0.stash.provider, ContentRef::Iface(*id(%s)))*' % x
    inh = ['IfaceRef::Id(each(%s.inherits))' % x, 'IfaceRef::Name(get(%s, each(%s.inherits))@Some)' % (names, x)]
    g0, gs = listing(ck, S, p.find('ifaces', 'Stock'), L, ['IfaceInfo{*}'], (), [RD + '*', 'Supplement::*'], True, 'the listing', allow=inh)
    for g in gs:
        for e in g.events('add'):
            if m(e.args[1], 'IfaceInfo{*}'):
                fields(ck, S, e.args[1], {'id': '*id(%s)' % x, 'version': x + '.version', 'name': x + '.name', 'developer': x + '.developer', 'created_at': when(x + '.timestamp'),
                                          'default_op': x + '.default_operation'}, e.loc)
                for f, nm in (('standard', 'IfaceClass'), ('features', 'Features')):
                    ok = ['Supplement::get_default_opt(%s@Some, SupplSub::Itself, *)' % sup, 'Supplement::get_default_opt(%s@Some, SupplSub::Itself, *)@Some' % sup, 'Option::None', 'default<>', 'empty<>',
                          'Option::Some(Supplement::get_default_opt(%s@Some, SupplSub::Itself, *)@Some)' % sup]
                    for y in alts(field(e.args[1], f)):
                        ck.ob(S, m(y, ok) or m(y, 'default:*'), '%s is annotated in the supplement of the interface: %s' % (f, cutstr(show(y))), loc=e.loc)
    named(ck)


def named(ck):
    """a parent is shown by its own name, or by its id if there is no name"""
    p = ck.p
    S = 'IfaceInfo::with'
    g = ck.graph(G(p, p.find('with', 'IfaceInfo')))
    k = 'get($3, each($0.inherits))'
    adds = g.events('add')
    ck.ob(S, bool(adds), 'parents are listed')
    for e in adds:
        for y in alts(e.args[1]):
            ck.ob(S, m(y, ['IfaceRef::Name(%s@Some)' % k, 'IfaceRef::Id(each($0.inherits))']), 'a parent is listed: %s' % cutstr(show(y)), loc=e.loc)
    ck.hold(S, g.foreach('$0.inherits', E('add')), 'all parents are listed')
    for a, v in (('standard', '$1'), ('features', '$2')):
        for _, r in g.rets():
            ck.ob(S, m(field(r, a), v), '%s is the given one' % a)
    S = 'Supplement::get_default_opt'
    g = ck.graph(G(p, p.find('get_default_opt', 'Supplement')))
    for _, r in g.rets():
        for y in alts(r):
            s = show(y)
            ck.ob(S, s == 'Option::None' or 'get($0.annotations, $1)@Some' in s and 'SupplItem::Default' in s and '$2' in s, 'the value is the one annotated for the item: %s' % cutstr(s))


def isnot(l, t, v):
    return l[0] == 'isnot' and show(l[1]) == t and v in l[2]

