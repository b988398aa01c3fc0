"""ids of containers"""
from rules import *

RULE = '''MIR of the functions which feed the id of each container or of a part of it, closures inlined. On every path every part of
the container is fed to the commitment: as a whole, or as the set of the ids of all its members. Parts with a derived
commitment are fed as a whole. The id asked for, the id printed in armored text and the id compared when the text is parsed are that commitment
of that very container.'''
FLOOR = 30
CE = ['CommitEngine::*', 'CommitId::*', '*disclose_hash', 'ConsignmentExt::*', 'Genesis::*', 'Operation::*', 'TypeSystem::id', 'Lib::id', 'Schema::schema_id']
ID = ['*id(%s)', '*id(%s+<*>)']
DH = ['*disclose_hash(%s)', '*disclose_hash(%s+<*>)']
# part -> (element of the part, its digest) for sets, or the digest of the whole
PARTS = {
    'Consignment': {
        'version': ['$0.version'], 'transfer': ['$0.transfer'],
        'contract': ['*contract_id($0)', '*contract_id($0.genesis)'], 'genesis': ['*disclose_hash($0.genesis)', '$0.genesis'],
        'ifaces': ('$0.ifaces', 'each($0.ifaces).1', ID), 'bundles': ('$0.bundles', 'each($0.bundles)', ID),
        'extensions': ('$0.extensions', 'each($0.extensions)', DH), 'terminals': ['$0.terminals'],
        'attachments': ('$0.attachments', 'each($0.attachments).0', ['%s']),
        'supplements': ('$0.supplements', 'each($0.supplements)', ID), 'types': ['*id($0.types)', '$0.types'],
        'scripts': ('$0.scripts', 'each($0.scripts)', ID), 'signatures': ['$0.signatures']},
    'Kit': {
        'version': ['$0.version'], 'ifaces': ('$0.ifaces', 'each($0.ifaces)', ID), 'schemata': ('$0.schemata', 'each($0.schemata)', ID),
        'iimpls': ('$0.iimpls', 'each($0.iimpls)', ID), 'supplements': ('$0.supplements', 'each($0.supplements)', ID),
        'types': ['*id($0.types)', '$0.types'], 'scripts': ('$0.scripts', 'each($0.scripts)', ID), 'signatures': ['$0.signatures']},
}
WHOLE = ['Iface', 'IfaceImpl', 'WitnessBundle', 'Supplement', 'SigBlob']
COMMIT = 'CommitEngine::commit_to*'
OWN = ['CommitId::commit_id($0)', '*::consignment_id($0)', 'Kit::kit_id($0)']


def items(t):
    """members of a set built here"""
    out = []
    while t.op == 'upd':
        out += [x[1] for x in t.a[1] if x[0] == 'add']
        t = t.a[0]
    return out


def part(ck, S, g, name, want):
    if isinstance(want, list):
        ck.hold(S, g.must(E(COMMIT, None, want)), 'the id depends on its %s' % name)
        return
    src, el, ps = want
    ps = [x % el for x in ps] + [el]
    whole = [src, 'keys(%s)' % src] if el.endswith(').0') else src

    def q(e):
        if not (e.kind == 'call' and e.name.startswith('CommitEngine::commit_to')) or len(e.args) < 2:
            return False
        if m(e.args[1], whole):
            return True
        xs = items(e.args[1])
        return bool(xs) and all(m(x, ps) for x in xs)
    ck.hold(S, g.must(q), 'the id depends on its %s' % name)
    full = any(m(e.args[1], whole) for e in g.events(COMMIT) if len(e.args) > 1)
    adds = [e for e in g.events('add') if m(e.args[1], ps)]
    if full or not adds and not g.edges(['next %s*' % src]):
        # taken in one go
        return
    ck.hold(S, g.foreach(src, E('add', None, ps)), 'all of its %s are taken' % name)


def check(ck):
    p = ck.p
    for ty, parts in PARTS.items():
        fn = p.find('commit_encode', ty)
        S = 'id of %s' % ty
        g = ck.graph(G(p, fn, CE))
        flds = {f[0] for f in p.adts[p.adt(ty)]['variants'][0]['fields']}
        for f in flds:
            ck.ob(S, f in parts or f == 'schema', 'the part %s is known to this check' % f)
        for name, want in parts.items():
            if name == 'contract' or name in flds:
                part(ck, S, g, name, want)
        for e in g.events(COMMIT):
            ck.ob(S, m(e.args[0], ['$1', '$1+<*']), 'the given commitment is fed', loc=e.loc)
    for ty in WHOLE:
        fn = p.find('commit_encode', ty)
        g = ck.graph(G(p, fn, CE))
        S = 'id of %s' % ty
        flds = [f[0] for f in p.adts[p.adt(ty)]['variants'][0]['fields']]
        if g.must(E(COMMIT, '$1*', '$0'))[0]:
            ck.ob(S, True, 'the whole content is fed')
        else:
            for f in flds:
                ck.hold(S, g.must(E(COMMIT, '$1*', ['$0.' + f, '*id($0.%s)' % f])), 'the id depends on its %s' % f)
    for name, ty in (('iface_id', 'Iface'), ('impl_id', 'IfaceImpl'), ('suppl_id', 'Supplement'), ('consignment_id', 'Consignment'),
                     ('kit_id', 'Kit'), ('armor_id', 'Consignment'), ('armor_id', 'Kit')):
        fn = p.find(name, ty)
        g = ck.graph(G(p, fn, ['CommitId::*']))
        for _, r in g.rets():
            ck.ob('%s::%s' % (ty, name), m(r, OWN), 'the id is that of the content: %s' % cutstr(show(r)))
    for ty in ('IfaceId', 'ImplId', 'SupplId', 'ConsignmentId', 'KitId'):
        for name, tr, want in (('to_baid64_payload', 'DisplayBaid64', ['*to_byte_array($0)', '*to_byte_array($0.0)', 'conv:*($0)', 'conv:*($0.0)']),
                               ('from_str', 'FromStr', ['FromBaid64Str::from_baid64_str($0)']), ('fmt', 'Display', ['DisplayBaid64::fmt_baid64($0, $1)'])):
            g = ck.graph(G(p, p.find(name, ty, tr), ['*_baid64*']))
            for _, r in g.rets():
                ck.ob('%s::%s' % (ty, name), m(r, want), 'the text of an id stands for its bytes: %s' % cutstr(show(r)))
