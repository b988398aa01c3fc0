"""stash: objects are kept under their own ids"""
from rules import *

RULE = '''MIR of every writer and reader of the in-memory stash, helpers inlined. A writer stores exactly the given object under
the identifier computed from that object (or given with it), in the collection of its kind, changes nothing else, cannot
succeed without storing it unless an object is already known under that identifier, and reports newness from that very
lookup; schemata and interfaces already known are never overwritten. A reader returns exactly the record stored under
the queried identifier and its own error when there is none.'''
FLOOR = 71
MUT = ('add', 'remove', 'clear', 'retain')
W, R = 'StashWriteProvider', 'StashReadProvider'
WID = ['XChain::map_ref($1.public, closure)', 'SealWitness::witness_id($1)', 'ToWitnessId::to_witness_id($1.public)']
IID = ['CommitId::commit_id($1)', 'Iface::iface_id($1)']
# writer: collection, key, value, keep (a known record stays)
WR = {
    'replace_schema': ('schemata', ['Schema::schema_id($1)'], ['SchemaIfaces{schema: $1, iimpls: empty<>}', 'SchemaIfaces::new($1)'], True),
    'replace_iface': ('ifaces', IID, ['$1'], True),
    'replace_genesis': ('geneses', ['Operation::contract_id($1)', 'Genesis::contract_id($1)'], ['$1'], False),
    'replace_extension': ('extensions', ['Operation::id($1)'], ['$1'], False),
    'replace_bundle': ('bundles', ['TransitionBundle::bundle_id($1)'], ['$1'], False),
    'replace_witness': ('witnesses', WID, ['$1'], False),
    'replace_attachment': ('attachments', ['$1'], ['$2'], False),
    'replace_lib': ('libs', ['Lib::id($1)'], ['$1'], False),
    'set_trust': ('identities', ['$1'], ['$2'], False),
}
RD = {'lib': ('libs', 'LibAbsent'), 'schema': ('schemata', 'SchemaAbsent'), 'genesis': ('geneses', 'ContractAbsent'),
      'bundle': ('bundles', 'BundleAbsent'), 'extension': ('extensions', 'OperationAbsent'),
      'witness': ('witnesses', 'WitnessAbsent')}
LISTS = {'ifaces': ('ifaces', '.1'), 'schemata': ('schemata', '.1'), 'geneses': ('geneses', '.1'), 'witness_ids': ('witnesses', '.0'),
         'bundle_ids': ('bundles', '.0'), 'extension_ids': ('extensions', '.0'), 'secret_seals': ('secret_seals', '')}


def check(ck):
    p = ck.p
    for f, (coll, keys, vals, keep) in WR.items():
        g = ck.graph(G(p, p.find(f, 'MemStash', W)))
        pl = '$0.' + coll
        known = ['get(%s, %s) is Some' % (pl, k) for k in keys]
        new = ['get(%s, %s) is None' % (pl, k) for k in keys]
        adds = []
        for e in g.events(list(MUT)):
            if e.dst.startswith('_'):
                continue
            ok = e.name == 'add' and e.dst == pl and m(field(e.args[1], '0'), keys) and m(field(e.args[1], '1'), vals)
            ck.ob(f, ok, 'only the object itself is stored, under its own id: %s(%s, %s)' % (e.name, e.dst, cutstr(show(e.args[-1]))), loc=e.loc)
            if ok:
                adds.append(e)
        for e in g.events(kind='store'):
            ck.ob(f, not str(getattr(e, 'dst', '')).startswith('$0'), 'nothing else is changed', loc=e.loc)
        ck.ob(f, bool(adds), 'the object is stored')
        ck.hold(f, g.must(lambda e: e in adds, known if keep else []), 'the object is stored before success is reported')
        if keep:
            ck.hold(f, g.only_if(lambda e: e in adds, new), 'a known object is not replaced')
        if f != 'set_trust':
            newness(ck, f, g, ['get(%s, %s)' % (pl, k) for k in keys])
    # implementations
    f = 'replace_iimpl'
    g = ck.graph(G(p, p.find(f, 'MemStash', W)))
    pl = '$0.schemata[$1.schema_id].iimpls'
    nm = 'get($0.ifaces, $1.iface_id)@Some.name'
    adds = [e for e in g.events(list(MUT)) if not e.dst.startswith('_')]
    for e in adds:
        ck.ob(f, e.name == 'add' and e.dst == pl and m(e.args[1], '(%s, $1)' % nm),
              'an implementation is stored with its schema under the name of its interface: %s' % e.dst, loc=e.loc)
    ck.hold(f, g.must(lambda e: e in adds), 'the implementation is stored')
    newness(ck, f, g, ['get(get($0.schemata, $1.schema_id)@Some.iimpls, %s)' % nm])
    # supplements, seals, types
    f = 'add_supplement'
    g = ck.graph(G(p, p.find(f, 'MemStash', W)))
    evs = multimap(ck, g, f, '$0.suppl', '$1.content_id', '$1', 'a supplement')
    ck.hold(f, g.must(lambda e: e in evs), 'the supplement is stored')
    f = 'add_secret_seal'
    g = ck.graph(G(p, p.find(f, 'MemStash', W)))
    for e in g.events(list(MUT)):
        ck.ob(f, e.name == 'add' and e.dst == '$0.secret_seals' and m(e.args[1], '$1'), 'only the seal is stored', loc=e.loc)
    ck.hold(f, g.must(E('add', None, '$1'), ['contains($0.secret_seals, $1)']), 'the seal is stored')
    newness(ck, f, g, [], ['contains($0.secret_seals, $1)'])
    f = 'consume_types'
    g = ck.graph(G(p, p.find(f, 'MemStash', W)))
    ck.hold(f, g.must(E('TypeSystem::extend', '$0.type_system', '$1')), 'types are added to the known ones')
    # readers
    for f, (coll, err) in RD.items():
        g = ck.graph(G(p, p.find(f, 'MemStash', R)))
        got = 'get($0.%s, $1)' % coll
        ck.hold(f, g.must(lits=[got + ' is Some']), 'a missing record is an error')
        for _, r in g.rets():
            for x in alts(r):
                ck.ob(f, m(x, ['Result::Ok(%s@Some)' % got, 'Result::Err(ProviderError::Inconsistency(StashInconsistency::%s($1)))' % err]),
                      'the record or its own error is returned: %s' % show(x))
        ck.hold(f, g.ret_only_if('Result::Err(*', [got + ' is None']), 'a stored record is found')
    for f, (coll, part) in LISTS.items():
        src = '$0.' + coll
        listing(ck, f, p.find(f, 'MemStash', R), src, 'each(%s)%s' % (src, part), okres=True, what='the list')
    f = 'iface'
    g = ck.graph(G(p, p.find(f, 'MemStash', R)))
    ref = 'conv:IfaceRef($1)'
    byid = 'get($0.ifaces, %s@Id)' % ref
    same = ['(%s@Name == each($0.ifaces).1.name)' % ref, '(each($0.ifaces).1.name == %s@Name)' % ref]
    ck.hold(f, g.must(lits=[byid + ' is Some'] + same), 'an interface is found only by its id or name')
    for _, r in g.rets():
        for v in okval(r):
            ck.ob(f, m(v, ['each($0.ifaces).1', byid + '@Some']), 'a stored interface is returned: %s' % show(v))
    ck.hold(f, g.ret_only_if('Result::Err(*', [byid + ' is None', 'end $0.ifaces']), 'a stored interface is found')
    for l, c in ((ref + ' is Id', same), (ref + ' is Name', [byid + ' is Some'])):
        ck.hold(f, g.never_after([l], target=lambda n, e: e is None and any(lm(x, c) for _, ls in n.succ for x in ls)), 'only the given reference is used')
    f = 'seal_secret'
    g = ck.graph(G(p, p.find(f, 'MemStash', R)))
    s = 'each($0.secret_seals)'
    same = ['($1 == Conceal::conceal(%s))' % s, '(Conceal::conceal(%s) == $1)' % s]
    cases(ck, g, f, [('Result::Ok(Option::Some(%s))' % s, [same]), ('Result::Ok(Option::None)', [['end $0.secret_seals']])], 'the seal lookup')
    ck.hold(f, g.never_after(same, target=lambda n, e: e is None and n.ret is not None and mays(n.ret, 'Result::Ok(Option::None)')),
            'a known seal is found')
    f = 'supplements'
    g = ck.graph(G(p, p.find(f, 'MemStash', R)))
    for _, r in g.rets():
        for v in okval(r):
            if lazy(v):
                h = drain(ck, v)
                src = 'get($0.suppl, $1)@Some'
                for e in h.events('add'):
                    ck.ob(f, m(e.args[1], 'each(%s)' % src), 'the stored supplements are returned: %s' % show(e.args[1]), loc=e.loc)
                ck.hold(f, h.foreach(src, E('add', None, 'each(%s)' % src), complete=False), 'every supplement is returned')
                ck.hold(f, h.must(lits=['end ' + src, 'get($0.suppl, $1) is None']), 'all supplements are considered')
                continue
            ck.ob(f, m(v, ['default<>', 'empty<>', 'get($0.suppl, $1)@Some']), 'the stored supplements are returned: %s' % show(v))
    f = 'supplement'
    g = ck.graph(G(p, p.find(f, 'MemStash', R)))
    for _, r in g.rets():
        for v in okval(r):
            ck.ob(f, m(v, ['Option::None', '*(get($0.suppl, $1)@Some*', 'Option::Some(*get($0.suppl, $1)@Some*']), 'a stored supplement is returned: %s' % show(v))
    ck.hold(f, g.ret_only_if('Result::Ok(Option::None)', ['get($0.suppl, $1) is None', '*(get($0.suppl, $1)@Some*']), 'a stored supplement is found')
    # implementation lookup of a schema
    for f, pos, neg in (('get', 'Option::Some(each($0.iimpls).1)', 'Option::None'), ('contains', 'true', 'false')):
        g = ck.graph(G(p, p.find(f, 'SchemaIfaces')))
        i = 'each($0.iimpls).1.iface_id'
        same = ['($1 == %s)' % i, '(%s == $1)' % i]
        S = 'SchemaIfaces::' + f
        cases(ck, g, S, [(pos, [same]), (neg, [['end $0.iimpls']])], 'the implementation lookup')
        ck.hold(S, g.never_after(same, target=lambda n, e: e is None and n.ret is not None and mays(n.ret, neg)),
                'a known implementation is found')


def newness(ck, f, g, gets, has=()):
    some = [x + ' is Some' for x in gets] + list(has)
    none = [x + ' is None' for x in gets] + ['!' + x for x in has]
    for _, r in g.rets():
        for v in okval(r):
            s = show(v)
            ok = s in ('true', 'false') or s in ['!(%s)' % x for x in some] + ['!' + x for x in has] or s in ['(%s)' % x for x in none] or s in none
            ck.ob(f, ok, 'newness is reported from the lookup: %s' % s)
    ck.hold(f, g.ret_only_if('Result::Ok(true)', none), 'a known object is not reported as new')
    ck.hold(f, g.ret_only_if('Result::Ok(false)', some), 'a new object is not reported as known')
