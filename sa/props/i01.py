"""interface implementations"""
from rules import *

RULE = '''From MIR: each lookup in an interface implementation finds the entry of its own list with exactly the name or type asked
for, and nothing only after the whole list was gone through. The check against interface and schema reports exactly: every name
of the interface without an entry of this name in the list of the same kind; every entry whose type the schema does not define
as that kind; every name with more than one entry; every error not defined by the interface; a time stamp which is invalid or in
the future. It succeeds exactly if nothing was reported and returns all reports otherwise.'''
FLOOR = 100
# list of the implementation and the interface -> definitions of the schema, reports
KINDS = {'metadata': ('meta_types', 'IfaceMetaAbsent', 'SchemaMetaAbsent', 'RepeatedMetaData'),
         'global_state': ('global_types', 'IfaceGlobalAbsent', 'SchemaGlobalAbsent', 'RepeatedGlobalState'),
         'assignments': ('owned_types', 'IfaceAssignmentAbsent', 'SchemaAssignmentAbsent', 'RepeatedAssignments'),
         'valencies': ('valency_types', 'IfaceValencyAbsent', 'SchemaValencyAbsent', 'RepeatedValencies'),
         'transitions': ('transitions', 'IfaceTransitionAbsent', 'SchemaTransitionAbsent', 'RepeatedTransitions'),
         'extensions': ('extensions', 'IfaceExtensionAbsent', 'SchemaExtensionAbsent', 'RepeatedExtensions')}
LOOKUPS = {'meta': 'metadata', 'global': 'global_state', 'assignments': 'assignments', 'assignment': 'assignments', 'valency': 'valencies',
           'transition': 'transitions', 'extension': 'extensions', 'error': 'errors'}
I = 'ImplInconsistency::'


def times(ck, S, g, pre, items):
    """reports on the time stamp"""
    t = 'LocalResult::single(TimeZone::timestamp_opt(*Utc*, $0.timestamp, 0))'
    ts = [t, 'DateTime::from_timestamp($0.timestamp, 0)']
    bad, fut = pre + 'InvalidTimestamp($0.timestamp)', [pre + 'FutureTimestamp(%s@Some)' % x for x in ts]
    report(ck, S, g, bad, [([x + ' is None' for x in ts], [x + ' is Some' for x in ts])])
    later = ['(Utc::now() < %s@Some)' % x for x in ts] + ['(%s@Some > Utc::now())' % x for x in ts]
    report(ck, S, g, fut, [(later, ['!' + x for x in later] + [x + ' is None' for x in ts])])
    items += [bad, fut]


def check(ck):
    p = ck.p
    n = 0
    for f in p.fns.values():
        if f.selfadt != p.adt('IfaceImpl') or f.trait or '{closure' in f.path:
            continue
        k = f.name.rsplit('_', 1)
        if len(k) != 2 or k[1] not in ('name', 'type') or k[0] not in LOOKUPS:
            continue
        n += 1
        S = p.short(f)
        src = '$0.' + LOOKUPS[k[0]]
        e = 'each(%s)' % src
        g = ck.graph(G(p, f))
        ask, ans = ('id', 'name') if k[1] == 'name' else ('name', 'id')
        yes, no = eqs('$1', '%s.%s' % (e, ask))
        for _, r in g.rets():
            ck.ob(S, m(r, ['Option::Some(%s.%s)' % (e, ans), 'Option::None']), 'the answer is of the entry found: %s' % show(r))
        some = [r for _, r in g.rets() if m(r, 'Option::Some(*')]
        ck.ob(S, bool(some), 'entries are found')
        nx = g.edges(['next ' + src])
        ids = {x.id for x, r in g.rets() if m(r, 'Option::Some(*')}
        w = g.reach([t for _, t, _ in nx], lambda x, ev: ev is None and x.id in ids, None, lambda l: lm(l, yes))
        ck.ob(S, bool(nx) and w is None, 'only an equal %s matches' % ask, w and g.describe(w))
        w = g.reach([t for _, t, _ in g.edges(no)], lambda x, ev: ev is None and x.id in ids, None, lambda l: lm(l, yes))
        ck.ob(S, w is None, 'a different %s does not match' % ask, w and g.describe(w))
        ck.hold(S, g.ret_only_if('Option::None', ['end ' + src]), 'nothing is found only after all were looked at')
        w = g.reach([t for _, t, _ in g.edges(yes)], lambda x, ev: ev is None and x.ret is not None and x.id not in ids)
        ck.ob(S, w is None and bool(g.edges(yes)), 'an equal %s is found' % ask, w and g.describe(w))
    ck.ob('IfaceImpl', n >= 13, 'lookups are known: %d' % n)
    S = 'IfaceImpl::check'
    g = ck.graph(G(p, p.find('check', 'IfaceImpl')))
    items = []
    times(ck, S, g, I, items)
    for k, (types, absent, unknown, repeated) in KINDS.items():
        own, ifc = '$0.' + k, '$1.' + k
        e, i = 'each(%s)' % own, 'each(%s).0' % ifc
        yes, no = eqs(e + '.name', i)
        it = I + absent + '(%s)' % i
        items.append(it)
        report(ck, S, g, it, [(['end ' + own], yes)], src=ifc)
        it = I + unknown + '(%s.name, %s.id)' % (e, e)
        items.append(it)
        yes, no = known('$2.' + types, e + '.id')
        report(ck, S, g, it, [(no, yes)], src=own)
        # names are counted in a map
        got = 'get(hole<>, %s.name)@Some' % e
        counts = ['{(%s Add 1) | 1}' % got, '({%s | 0} Add 1)' % got, '({0 | %s} Add 1)' % got, '{(0 Add 1) | (%s Add 1)}' % got]
        late = ['{%s Add 1) | 0}' % ('(' + got), '{0 | (%s Add 1)}' % got]
        maps = [t for t in {l[1] for _, _, ls in g.edges(lambda l: l[0] == 'some') for l in ls if l[0] == 'some'}
                if counted(t, e + '.name', counts + late)]
        ck.ob(S, bool(maps), 'names of %s are counted' % k)
        names = [(e + '.name', c) for c in counts]
        if any(counted(t, e + '.name', late) for t in maps):
            # entered with zero, then incremented
            names = [('each(%s).0' % show(t), 'each(%s).1' % show(t)) for t in maps]
            counts = [c for _, c in names]
            inc = lambda ev, e=e: ev.kind == 'assert' and ev.name.startswith('Overflow(Add') and show(ev.args[0]).endswith(', %s.name)@Some, 1>' % e)
            for ev in g.events('add', args=None, pred=lambda ev, e=e: m(ev.args[-1], '(%s.name, 0)' % e)):
                ck.hold(S, follows(g, ev, inc, target=lambda x, z, own=own: z is None and (x.ret is not None or any(
                    lm(l, ['next ' + own, 'end ' + own]) for _, ls in x.succ for l in ls))), 'the first %s is counted' % k)
        its = [I + repeated + '(%s, %s)' % x for x in names]
        items.append(its)
        many = ['(1 < %s)' % c for c in counts] + ['(2 <= %s)' % c for c in counts] + ['!(%s < 2)' % c for c in counts]
        few = ['!(1 < %s)' % c for c in counts] + ['!(2 <= %s)' % c for c in counts] + ['(%s < 2)' % c for c in counts]
        report(ck, S, g, its, [(many, few)], src=[show(t) for t in maps])
        cnt = lambda ev, e=e: ev.name == 'add' and ev.dst is not None and m(ev.args[1], ['(%s.name, 1)' % e, '(%s.name, 0)' % e]) or \
            ev.kind == 'store' and ev.dst is not None and [show(x) for x in ev.dst.keys] == [e + '.name'] or \
            ev.name == 'get_mut' and show(ev.args[-1]) == e + '.name'
        ck.hold(S, g.foreach(own, cnt, unless=['get(*, %s.name) is Some' % e], target=lambda x, ev: ev is None and x.ret is not None),
                'every name of %s is counted' % k)
    it = I + 'IfaceErrorAbsent(each($0.errors).name)'
    items.append(it)
    yes, no = eqs('each($0.errors).name', 'each($1.errors).0')
    k2 = known('$1.errors', 'each($0.errors).name')
    report(ck, S, g, it, [(['end $1.errors'] + k2[1], yes + k2[0])], src='$0.errors')
    verdict(ck, S, g, 'ImplInconsistency', items)


def counted(t, name, counts):
    if t.op != 'upd' or t.a[0].op != 'empty':
        return False
    s = show(t)
    return any(('(%s, %s)' % (name, c)) in s for c in counts) and 'hole<> ' not in s
