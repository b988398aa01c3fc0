"""definitions given to builders, contract views and exported kits"""
from rules import *

RULE = '''MIR of the stash and stock methods making operation builders, contract views and kits, helpers and closures inlined down to
the stash readers. Every argument is traced back: the schema is the one of the asked contract (or the asked one), the interface the one
asked for, the implementation the one the schema has for that interface (a blank transition may use another one of that schema together
with its own interface), types and scripts those extracted for that very schema and interface. A transition builder gets
every asset tag of the genesis of the contract before it is returned. Lookups return what is stored for the asked id; extraction covers
all types and all libraries of the schema and all types of the interfaces. An exported kit has the schema, all its
implementations, the interface of each, and the extracted types and scripts.'''
FLOOR = 60
ST = ['Stash::iface', 'Stash::extract', '*::impl_for', 'Iface::*', 'Kit::validate', 'StashReadProvider::*', 'StateReadProvider::*', 'TransitionBuilder::*',
      'ContractBuilder::*', 'Schema::*']
TAG = 'TransitionBuilder::add_asset_tag_raw'


def ctors(ck, S, g, want):
    """want: constructor -> {argument index: patterns}"""
    evs = []
    for name, args in want.items():
        es = g.events(name)
        ck.ob(S, bool(es), '%s is used' % name)
        for e in es:
            evs.append(e)
            for i, ps in args.items():
                ck.ob(S, len(e.args) > i and mf(e.args[i], ps), 'argument %d of %s: %s' % (i, name, cutstr(show(e.args[i]))), loc=e.loc)
    return evs


def pairs(ck, S, g, es, given, schema):
    """the implementation is the one of the interface used with it"""
    own = ['(Iface::iface_id(%s) == each(%s.iimpls).1.iface_id)' % (given, schema), '(each(%s.iimpls).1.iface_id == Iface::iface_id(%s))' % (schema, given)]
    n = 0
    for e in es:
        for i, a in enumerate(e.args):
            if m(a, 'each(%s.iimpls).1' % schema):
                n += 1
                ck.hold(S, g.only_if(lambda z, e=e: z is e, own), 'the implementation is the one for the interface', loc=e.loc)
                ck.ob(S, any(m(x, given) for x in e.args), 'it is used with that interface', loc=e.loc)
    ck.ob(S, n > 0, 'an implementation of the interface is used')
    return own


def check(ck):
    p = ck.p
    S = 'Stash::contract_builder'
    g = ck.graph(G(p, p.find('contract_builder', 'Stash'), ST))
    sc, ifc = 'StashReadProvider::schema($0.provider, $2)@Ok', 'Stash::iface($0, $3)@Ok'
    ex = 'Stash::extract($0, %s.schema, [%s])@Ok' % (sc, ifc)
    es = ctors(ck, S, g, {'ContractBuilder::with': {0: '$1', 1: ifc, 2: sc + '.schema', 3: 'each(%s.iimpls).1' % sc, 4: ex + '.0', 5: ex + '.1'}})
    pairs(ck, S, g, es, ifc, sc)
    for _, r in g.rets():
        for v in okval(r):
            ck.ob(S, m(v, 'ContractBuilder::with(*)'), 'the builder is returned')
    ck.ob(S, any(okval(r) for _, r in g.rets()), 'a builder is returned')

    sc, ifc, gen = 'StashReadProvider::contract_schema($0.provider, $1)@Ok', 'Stash::iface($0, $2)@Ok', 'StashReadProvider::genesis($0.provider, $1)@Ok'
    ex = 'Stash::extract($0, %s.schema, [%s])@Ok.0' % (sc, ifc)
    first = 'BTreeMap::first_key_value(%s.iimpls)@Some' % sc
    for S, want in (('transition_builder', {
            'TransitionBuilder::named_transition': {0: '$1', 1: ifc, 2: sc + '.schema', 3: 'each(%s.iimpls).1' % sc, 4: '$3@Some', 5: ex},
            'TransitionBuilder::default_transition': {0: '$1', 1: ifc, 2: sc + '.schema', 3: 'each(%s.iimpls).1' % sc, 4: ex}}),
            ('blank_builder', {'TransitionBuilder::blank_transition': {0: '$1', 1: [ifc, 'Stash::iface($0, *)@Ok'], 2: sc + '.schema',
                                                                       3: ['each(%s.iimpls).1' % sc, first + '.1', '*%s.iimpls*' % sc],
                                                                       4: [ex, 'Stash::extract($0, %s.schema, *)@Ok.0' % sc]}})):
        f = p.find(S, 'Stash')
        S = 'Stash::' + S
        g = ck.graph(G(p, f, ST, fluent=[TAG], split=lambda l: 'iface_id' in lit(l)))
        es = ctors(ck, S, g, want)
        own = pairs(ck, S, g, es, ifc, sc)
        if 'blank' in S:
            other = [e for e in es if not m(e.args[3], 'each(%s.iimpls).1' % sc)]
            for e in other:
                ck.ob(S, m(e.args[1], 'Stash::iface($0, %s.0)@Ok' % first) and m(e.args[3], first + '.1') or
                      m(e.args[1], 'Stash::iface($0, %s.iface_id)@Ok' % show(e.args[3])), 'another implementation comes with its own interface: %s' % cutstr(show(e.args[1])), loc=e.loc)
                w = g.reach([t for _, t, _ in g.edges(own)], lambda n, z: z is e)
                ck.ob(S, w is None, 'another implementation is used only if there is none for the interface', w and g.describe(w), loc=e.loc)
        else:
            for e in es:
                nm = 'Some' if 'named' in e.name else 'None'
                ck.hold(S, g.only_if(lambda z, e=e: z is e, ['$3 is ' + nm]), 'the asked operation is made', loc=e.loc)
        x = 'each(%s.asset_tags)' % gen
        ck.hold(S, g.foreach(gen + '.asset_tags', E(TAG, None, x + '.0', x + '.1')), 'all asset tags of the contract are known to the builder')
        for e in g.events(TAG):
            ck.ob(S, m(e.args[1], x + '.0') and m(e.args[2], x + '.1'), 'only asset tags of the contract are given: %s' % cutstr(show(e.args[1])), loc=e.loc)
        n, tagged = 0, False
        for _, r in g.rets():
            for v in okval(r):
                b = v
                while b.op == 'upd':
                    b = b.a[0]
                n += 1
                ck.ob(S, all(any(m(y, [c + '(*)@Ok', c + '(*)']) for c in want) for y in alts(b)), 'the builder is returned: %s' % cutstr(show(b)))
                tagged = tagged or TAG in show(v)
        ck.ob(S, n > 0, 'a builder is returned')
        ck.ob(S, tagged, 'the builder with the tags is returned')
    # passing on
    for name, a in (('contract_builder', ['$0.stash', ['$1', 'conv:Identity($1)'], '$2', '$3']), ('transition_builder', ['$0.stash', '$1', '$2', '$3']), ('blank_builder', ['$0.stash', '$1', '$2'])):
        S = 'Stock::' + name
        g = ck.graph(G(p, p.find(name, 'Stock'), ['Stash::' + name]))
        es = g.events('Stash::' + name)
        ck.ob(S, bool(es), 'the stash makes it')
        for e in es:
            for i, w in enumerate(a):
                ck.ob(S, m(e.args[i], w), 'what was asked is passed on: %s' % cutstr(show(e.args[i])), loc=e.loc)
        for _, r in g.rets():
            for v in okval(r):
                ck.ob(S, m(v, 'Stash::%s(*)@Ok' % name), 'the builder is returned')
    # lookups
    S = 'StashReadProvider::contract_schema'
    g = ck.graph(G(p, p.find('contract_schema', intrait='StashReadProvider'), ['StashReadProvider::schema', 'StashReadProvider::genesis']))
    for _, r in g.rets():
        for v in okval(r) or ([r] if r.op == 'call' else []):
            ck.ob(S, m(v, ['StashReadProvider::schema($0, StashReadProvider::genesis($0, $1)@Ok.schema_id)', 'StashReadProvider::schema($0, StashReadProvider::genesis($0, $1)@Ok.schema_id)@Ok']), 'the schema is the one of the genesis: %s' % cutstr(show(v)))
    for name in ('iface', 'schema', 'genesis', 'bundle', 'witness', 'extension'):
        fs = [f for f in p.by_name[name] if f.selfadt == 'rgbstd::persistence::stash::Stash']
        for f in fs:
            g = ck.graph(G(p, f, ['StashReadProvider::*']))
            for _, r in g.rets():
                for v in okval(r) or ([r] if r.op == 'call' else []):
                    ck.ob('Stash::' + name, m(v, ['StashReadProvider::%s($0.provider, $1)@Ok' % name, 'StashReadProvider::%s($0.provider, $1)' % name]), 'what is stored for the id is returned: %s' % cutstr(show(v)))
    S = 'Stash::extract'
    g = ck.graph(G(p, p.find('extract', 'Stash'), ['StashReadProvider::*', 'Iface::*', 'TypeSystem::*', 'Schema::*']))
    ts = g.events('TypeSystem::extract')
    ck.ob(S, bool(ts), 'types are extracted')
    for e in ts:
        ck.ob(S, m(e.args[0], 'StashReadProvider::type_system($0.provider)@Ok'), 'from the known types', loc=e.loc)
        s = show(e.args[1])
        ck.ob(S, 'Schema::types($1)' in s, 'for the schema: %s' % cutstr(s), loc=e.loc)
        ck.ob(S, 'Iface::types' in s and '$2' in s, 'and for the interfaces: %s' % cutstr(s), loc=e.loc)
        for bad in ('Filter', 'Skip', 'Take', 'StepBy', 'Iterator::skip', 'Iterator::take', 'Iterator::step'):
            ck.ob(S, bad not in s, 'all of them: %s' % cutstr(s), loc=e.loc)
    lib = 'each(Schema::libs($1))'
    ck.hold(S, g.foreach('Schema::libs($1)', E('add', None, '(%s, StashReadProvider::lib($0.provider, %s)@Ok)' % (lib, lib))), 'all libraries of the schema are included')
    for _, r in g.rets():
        for v in okval(r):
            ck.ob(S, m(field(v, '0'), 'TypeSystem::extract(*)@Ok') and m(field(v, '1'), 'empty<>+<add((%s, *))>*' % lib), 'types and libraries are returned: %s' % cutstr(show(v)))
    # kits
    S = 'Stock::export_schema'
    g = ck.graph(G(p, p.find('export_schema', 'Stock'), ST))
    sc = 'StashReadProvider::schema($0.stash.provider, $1)@Ok'
    im = 'each(%s.iimpls)' % sc
    n = 0
    for _, r in g.rets():
        for v in okval(r):
            n += 1
            ck.ob(S, m(v, 'Kit::validate(*)@Ok'), 'a validated kit is returned')
    ck.ob(S, n > 0, 'a kit is returned')
    for e in g.events('Kit::validate'):
        k = e.args[0]
        fl = {x: show(field(k, x)) for x in ('schemata', 'ifaces', 'iimpls', 'types', 'scripts')}
        kit = ['default:Kit()', 'Kit::default()', 'strict_dumb*', 'Default::default()']
        D = '*'
        ifs = ['Stash::iface($0.stash, %s.0)@Ok' % im, 'Stash::iface($0.stash, %s.1.iface_id)@Ok' % im]
        ck.ob(S, m(field(k, 'schemata'), D + '+<add(%s.schema)>' % sc), 'it has the schema: %s' % cutstr(fl['schemata']), loc=e.loc)
        ck.ob(S, m(field(k, 'ifaces'), [D + '+<add(%s)>' % i for i in ifs]), 'it has the interfaces: %s' % cutstr(fl['ifaces']), loc=e.loc)
        ck.ob(S, m(field(k, 'iimpls'), [D + '+<add(%s.1)>' % im, D + '+<add(each(values(%s.iimpls)))>' % sc]), 'it has the implementations: %s' % cutstr(fl['iimpls']), loc=e.loc)
        exs = '*Stash::extract($0.stash, %s.schema, *)@Ok' % sc
        ck.ob(S, m(field(k, 'types'), exs + '.0'), 'it has the types: %s' % cutstr(fl['types']), loc=e.loc)
        ck.ob(S, m(field(k, 'scripts'), [D + '+<add(each(%s.1).1)>' % exs, D + '+<add(each(values(%s.1)))>' % exs]), 'it has the scripts: %s' % cutstr(fl['scripts']), loc=e.loc)
        for nm in ('ifaces',):
            ck.hold(S, g.foreach(sc + '.iimpls', E('add', None, ifs), target=lambda n, z, e=e: z is e), 'it has all interfaces')
    for e in g.events('Stash::extract'):
        ck.ob(S, m(e.args[2], ['*+<add(%s)>' % i for i in ifs]), 'for all the interfaces: %s' % cutstr(show(e.args[2])), loc=e.loc)
    # contract views
    for name in ('contract_iface', 'contract_iface_class'):
        S = 'Stock::' + name
        g = ck.graph(G(p, p.find(name, 'Stock'), ST + ['IfaceWrapper::*']))
        state = 'StateReadProvider::contract_state($0.state.provider, $1)@Ok'
        scs = ['StashReadProvider::schema($0.stash.provider, ContractStateRead::schema_id(%s))@Ok' % state, 'StashReadProvider::contract_schema($0.stash.provider, $1)@Ok']
        gen = 'StashReadProvider::genesis($0.stash.provider, $1)@Ok'
        for v in [x for _, r in g.rets() for x in okval(r)]:
            if name == 'contract_iface_class':
                ck.ob(S, m(v, 'IfaceWrapper::with(*)'), 'the view is wrapped')
                v = v.a[1]
            ck.ob(S, m(field(v, 'state'), state), 'the state is the one of the contract: %s' % cutstr(show(field(v, 'state'))))
            ck.ob(S, m(field(v, 'schema'), [s + '.schema' for s in scs]), 'the schema is the one of the contract: %s' % cutstr(show(field(v, 'schema'))))
            if name == 'contract_iface':
                ifc = 'Stash::iface($0.stash, $2)@Ok'
                ck.ob(S, m(field(v, 'iface'), ['Iface::find_abstractable_impl(%s, %s)@Some' % (ifc, s) for s in scs]), 'the implementation is found for the asked interface: %s' % cutstr(show(field(v, 'iface'))))
            else:
                ims = ['Stash::impl_for($0.stash, %s)@Ok' % s for s in scs] + ['StashReadProvider::impl_for($0.stash.provider, %s)@Ok' % s for s in scs]
                ck.ob(S, m(field(v, 'iface'), ims), 'the implementation is found for the class: %s' % cutstr(show(field(v, 'iface'))))
                ifc = 'Stash::iface($0.stash, %s.iface_id)@Ok' % show(field(v, 'iface'))
            ck.ob(S, m(field(v, 'types'), ['Stash::extract($0.stash, %s.schema, [%s])@Ok.0' % (s, ifc) for s in scs]), 'the types are of schema and interface: %s' % cutstr(show(field(v, 'types'))))
            i = field(v, 'info')
            for fl, w in (('id', ['Operation::contract_id(%s)' % gen, '$1']), ('schema_id', [gen + '.schema_id']), ('issuer', [gen + '.issuer']), ('testnet', [gen + '.testnet']), ('alt_layers1', [gen + '.alt_layers1'])):
                ck.ob(S, m(field(i, fl), w), 'the %s is the one of the contract: %s' % (fl, cutstr(show(field(i, fl)))))
            ck.ob(S, '%s.timestamp' % gen in show(field(i, 'issued_at')), 'the time of issue is the one of the contract')
    S = 'Iface::find_abstractable_impl'
    g = ck.graph(G(p, p.find('find_abstractable_impl', 'Iface'), ['Iface::iface_id', 'SchemaIfaces::get']))
    own = 'SchemaIfaces::get($1, Iface::iface_id($0))'
    par = 'SchemaIfaces::get($1, each($0.inherits))'
    for _, r in g.rets():
        for x in alts(r):
            ck.ob(S, mf(x, [own, par, 'Option::Some(%s@Some)' % own, 'Option::Some(%s@Some)' % par, 'Option::None']), 'an implementation of the interface or of one it inherits: %s' % cutstr(show(x)))
    es = g.events('SchemaIfaces::get')
    ck.ob(S, any(m(e.args[1], 'Iface::iface_id($0)') for e in es) and any(m(e.args[1], 'each($0.inherits)') for e in es), 'both are looked for')
    for e in es:
        if m(e.args[1], 'each($0.inherits)'):
            ck.hold(S, g.only_if(lambda z, e=e: z is e, [own + ' is None']), 'an own implementation is preferred', loc=e.loc)
    ck.hold(S, g.foreach('$0.inherits', None, unless=[par + ' is Some'], target=lambda n, e: e is None and n.ret is not None and 'None' in show(n.ret)), 'all inherited interfaces are tried')
    S = 'SchemaIfaces::get'
    g = ck.graph(G(p, p.find('get', 'SchemaIfaces')))
    x = 'each($0.iimpls).1'
    eq = ['(%s.iface_id == $1)' % x, '($1 == %s.iface_id)' % x]
    for n, r in g.rets():
        for y in alts(r):
            ck.ob(S, m(y, ['Option::Some(%s)' % x, 'Option::None']), 'an implementation is returned: %s' % cutstr(show(y)))
    ck.hold(S, g.ret_only_if('Option::Some(%s)' % x, eq), 'for the asked interface')
    ck.hold(S, g.foreach('$0.iimpls', None, unless=eq, target=lambda n, e: e is None and n.ret is not None and mays(n.ret, 'Option::None')), 'all are looked at')
