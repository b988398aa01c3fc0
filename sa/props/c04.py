"""stock: terminals and definitions given in a consignment"""
from rules import *
from props.s03 import propagate
from props.c01 import export

RULE = '''MIR of the consignment export. The result is built of the genesis of the asked contract, the schema of that genesis, all
implementations stored with the schema each with the interface of its id, and the types and scripts extracted for exactly that
schema and those interfaces; the kind flag is the kind asked for. The stored signature and supplement of the genesis, the schema,
each interface and each implementation are looked up under the id of that item and are included whenever there is one, under
the same id. The secret seal is a terminal of the bundle which assigns state to it, and of no other. All assignments of all
transitions of the outputs are compared with it. Errors of the lookups are returned.'''
FLOOR = 30


def items(t):
    its, b = [], t
    while b.op == 'upd':
        if any(x[0] != 'add' or len(x) != 2 for x in b.a[1]):
            return None
        its += [x[1] for x in b.a[1]]
        b = b.a[0]
    return its if b.op in ('empty', 'default') else None


def check(ck):
    p = ck.p
    tr, cb, cs, g = export(p)
    ck.graph(g)
    TR = p.short(tr)
    S = 'consign'
    gen = 'Stash::genesis($0.stash, $1)@Ok'
    sch = 'Stash::schema($0.stash, %s.schema_id)@Ok' % gen
    imp = 'each(%s.iimpls)' % sch
    ifc = 'Stash::iface($0.stash, %s.0)@Ok' % imp
    iid = ['CommitId::commit_id(%s)' % ifc, '%s.0' % imp, '*iface_id(%s)' % ifc]
    mid = ['CommitId::commit_id(%s.1)' % imp, '*impl_id(%s.1)' % imp]
    kinds = {'Genesis': (['$1', '*contract_id(%s)' % gen], None), 'Schema': (['%s.schema_id' % gen, '*schema_id(%s.schema)' % sch], None),
             'Iface': (iid, sch + '.iimpls'), 'IfaceImpl': (mid, sch + '.iimpls')}
    oks = [x for _, r in g.rets() for x in okval(r)]
    ck.ob(S, bool(oks), 'a consignment can be given')
    ex = ['Stash::extract($0.stash, %s.schema, %s)@Ok' % (sch, k) for k in ('keys(empty<>+<add((%s, %s.1))>)' % (ifc, imp), '*%s*' % ifc)]
    for x in oks:
        want = {'genesis': [gen], 'schema': [sch + '.schema'], 'transfer': ['cparam<*>'], 'types': [e + '.0' for e in ex],
                'ifaces': ['empty<>+<add((%s, %s.1))>' % (ifc, imp)], 'scripts': ['empty<>+<add(each(%s.1).1)>' % e for e in ex]}
        # no interface was found before the first one is
        none = ['Stash::extract($0.stash, %s.schema, keys(%s))@Ok' % (sch, z) for z in ('empty<>', 'hole<>')]
        for f, w in want.items():
            v = field(x, f)
            if f == 'types':
                ck.ob(S, any(m(a, w) for a in alts(v)) and all(m(a, w + [e + '.0' for e in none]) for a in alts(v)), 'types of the consignment: %s' % cutstr(show(v), 400))
                continue
            if f == 'scripts' and items(v) is not None:
                one = ['each(%s.1).1' % e for e in ex]
                ck.ob(S, any(mays(a, one) for a in items(v)) and all(m(b, one + ['each(%s.1).1' % e for e in none]) for a in items(v) for b in alts(a)),
                      'scripts of the consignment: %s' % cutstr(show(v), 400))
                continue
            ck.ob(S, m(field(x, f), w), '%s of the consignment: %s' % (f, cutstr(show(field(x, f)), 400)))
        ss, us = items(field(x, 'signatures')), items(field(x, 'supplements'))
        ck.ob(S, ss is not None and us is not None, 'signatures and supplements are only added')
        for k, (ids, _) in kinds.items():
            sig = ['(ContentId::%s(%s), Stash::sigs_for($0.stash, ContentId::%s(%s))@Ok@Some)' % (k, a, k, b) for a in ids for b in ids]
            sup = ['Stash::supplement($0.stash, ContentRef::%s(%s))@Ok@Some' % (k, a) for a in ids]
            ck.ob(S, any(m(z, sig) for z in ss or ()), 'the signature of the %s is included under its id' % k)
            ck.ob(S, any(m(z, sup) for z in us or ()), 'the supplement of the %s is included' % k)
        allsig = ['(ContentId::%s(%s), Stash::sigs_for($0.stash, ContentId::%s(%s))@Ok@Some)' % (k, a, k, b) for k, (ids, _) in kinds.items() for a in ids for b in ids]
        for z in ss or ():
            ck.ob(S, m(z, allsig), 'each signature is under the id of its item: %s' % cutstr(show(z), 300))
        for z in us or ():
            ck.ob(S, m(z, ['Stash::supplement($0.stash, ContentRef::%s(%s))@Ok@Some' % (k, a) for k, (ids, _) in kinds.items() for a in ids]), 'each supplement is of an item: %s' % cutstr(show(z), 300))
        tt = items(field(x, 'terminals'))
        seal = ['*to_confidential_seals(each(%s(*)@Ok.assignments).1)[*' % TR, 'each(*to_confidential_seals(each(%s(*)@Ok.assignments).1))' % TR, '$3@Some']
        bid = ['Index::bundle_id_for_op($0.index, *id(%s($0, *)@Ok))@Ok' % TR, 'Index::bundle_id_for_op($0.index, *opouts*.op*)@Ok']
        ck.ob(S, bool(tt), 'terminals are included: %s' % cutstr(show(field(x, 'terminals'))))
        for z in tt or ():
            ck.ob(S, m(z, ['(%s, %s)' % (b, s) for b in bid for s in seal]), 'a terminal is the secret seal of its bundle: %s' % cutstr(show(z), 300))
    for k, (ids, src) in kinds.items():
        for nm, ref in (('Stash::sigs_for', 'ContentId'), ('Stash::supplement', 'ContentRef')):
            what = ['%s($0.stash, %s::%s(%s))' % (nm, ref, k, a) for a in ids]
            some = ['%s@Ok is Some' % w for w in what]
            add = E('add', None, ['%s@Ok@Some' % w for w in what] + ['(ContentId::%s(%s), %s@Ok@Some)' % (k, a, w) for w in what for a in ids])
            ck.ob(S, bool(g.edges(some)), '%s of the %s is looked up' % (nm, k))
            if src:
                ck.hold(S, g.foreach(src, E(nm, '$0.stash', ['%s::%s(%s)' % (ref, k, a) for a in ids])), '%s of each %s is looked up' % (nm, k))
                heads = {n.id for n, _, _ in g.edges(['next ' + src, 'end ' + src])}
                ck.hold(S, g.after(some, add, target=lambda n, e, heads=heads: e is None and (n.id in heads or n.ret is not None and mays(n.ret, 'Result::Ok(*'))), 'what %s gives for the %s is included' % (nm, k))
            else:
                ck.hold(S, g.must(E(nm, '$0.stash', ['%s::%s(%s)' % (ref, k, a) for a in ids])), '%s of the %s is looked up' % (nm, k))
                ck.hold(S, g.after(some, add), 'what %s gives for the %s is included' % (nm, k))
    ck.hold(S, g.foreach(sch + '.iimpls', E('add', None, '(%s, %s.1)' % (ifc, imp))), 'every implementation is included with its interface')
    # terminals
    def eq(l):
        s = lit(l)
        return not s.startswith('!') and ('$3 == Option::Some(' in s or '$3@Some == ' in s or ' == $3@Some)' in s or s.startswith('contains(')) and 'to_confidential_seals(' in s and '$3' in s
    ck.ob(S, bool(g.edges([eq])), 'the secret seal is compared with the assigned ones')
    term = E('add', None, ['(Index::bundle_id_for_op(*)@Ok, %s)' % s for s in seal])
    ck.hold(S, g.only_if(term, [eq]), 'only the secret seal is a terminal')
    asg = ['%s(*)@Ok.assignments' % TR]
    heads = {n.id for n, _, _ in g.edges(['next ' + a for a in asg] + ['end ' + a for a in asg] + ['next Range{*to_confidential_seals*', 'next Range{*len*'])}
    ck.hold(S, g.after([eq], term, target=lambda n, e: e is None and (n.id in heads or n.ret is not None and mays(n.ret, 'Result::Ok(*'))), 'the secret seal is a terminal')
    outs = {n.id for n, _, _ in g.edges([x + y for x in ('next ', 'end ') for y in ('Index::*opouts*', 'empty<>+<add(each(Index::*opouts*')])}
    nxt = lambda n, e: e is None and (n.id in outs or n.ret is not None and mays(n.ret, 'Result::Ok(*'))
    rd = ['%s($0, *opouts*) is Ok' % TR]
    ck.hold(S, g.after(rd, None, unless=['end ' + a for a in asg], target=nxt), 'all assignments of the transition of an output are compared')
    n1 = {n.id for n, _, _ in g.edges(['next ' + a for a in asg] + ['end ' + a for a in asg])}
    ends = ['end Range{start: 0, end: *(each(%s).1)}' % a for a in asg] + ['end *to_confidential_seals(each(%s).1)' % a for a in asg] + \
           ['%scontains(*to_confidential_seals(each(%s).1), $3@Some)' % (x, a) for x in ('', '!') for a in asg]
    ck.hold(S, g.after(['next ' + a for a in asg], None, unless=ends + [eq], target=lambda n, e: e is None and n.id in n1), 'all seals of an assignment are compared')
    propagate(ck, S, g, ['Stash::sigs_for', 'Stash::supplement', 'Stash::genesis', 'Stash::schema', 'Stash::iface', 'Stash::extract'])
