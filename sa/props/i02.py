"""consistency of interfaces"""
from rules import *
from props.i01 import times

RULE = '''From MIR: the check of an interface reports exactly: every metadata, global state, assignment, valency and error which an
operation uses and the interface does not define, likewise every input of a transition and every valency redeemed by an
extension; every single global state, assignment or input of which an operation needs more than one; default assignments not among
those of their operation; a default operation which does not exist; names of both a transition and an extension; required
global state, assignments and valencies missing in genesis; invalid and future time stamps. It succeeds exactly if nothing
was reported and returns all reports otherwise. The types of an interface are those of all metadata, global state and data.'''
FLOOR = 150
I = 'IfaceInconsistency::'


def check(ck):
    p = ck.p
    S = 'Iface::check'
    g = ck.graph(G(p, p.find('check', 'Iface')))
    items = []
    times(ck, S, g, I, items)

    def rep(it, conds, **kw):
        items.append(it)
        report(ck, S, g, it, conds, **kw)

    for op, base, outer in (('OpName::Genesis', '$0.genesis', None), ('OpName::Transition(each($0.transitions).0)', 'each($0.transitions).1', '$0.transitions'),
                            ('OpName::Extension(each($0.extensions).0)', 'each($0.extensions).1', '$0.extensions')):
        lists = [('metadata', '', 'metadata', 'UnknownMetadata', None), ('globals', '.0', 'global_state', 'UnknownGlobal', 'MultipleGlobal'),
                 ('assignments', '.0', 'assignments', 'UnknownAssignment', 'MultipleAssignment'),
                 ('valencies', '', 'valencies', 'UnknownValency', None), ('errors', '', 'errors', 'UnknownError', None)]
        if 'Transition' in op:
            lists.append(('inputs', '.0', 'assignments', 'UnknownInput', 'MultipleInputs'))
        if 'Extension' in op:
            lists.append(('redeems', '', 'valencies', 'UnknownRedeem', None))
        for lst, key, defs, unknown, multiple in lists:
            src = '%s.%s' % (base, lst)
            e = 'each(%s)' % src
            yes, no = known('$0.' + defs, e + key)
            rep(I + '%s(%s, %s)' % (unknown, op, e + key), [(no, yes)], src=src, outer=outer)
            if multiple:
                mn = 'Occurrences::min_value(%s.1)' % e
                many, few = ['(1 < %s)' % mn, '(2 <= %s)' % mn, '!(%s < 2)' % mn, '!(%s <= 1)' % mn], \
                            ['!(1 < %s)' % mn, '!(2 <= %s)' % mn, '(%s < 2)' % mn, '(%s <= 1)' % mn]
                mul = 'get($0.%s, %s)@Some.multiple' % (defs, e + key)
                rep(I + '%s(%s, %s)' % (multiple, op, e + key), [(yes, no), (many, few), (['!' + mul], [mul])], src=src, outer=outer)
        if outer:
            d = base + '.default_assignment'
            yes, no = known(base + '.assignments', d + '@Some')
            rep(I + 'UnknownDefaultAssignment(%s, %s@Some)' % (op, d), [([d + ' is Some'], [d + ' is None']), (no, yes)], src=outer)
    yes, no = known('$0.extensions', 'each($0.transitions).0')
    yes2, no2 = known('$0.transitions', 'each($0.extensions).0')
    if any(m(e.args[-1], I + 'RepeatedOperationName(each($0.extensions).0)') for e in g.events('add')):
        rep(I + 'RepeatedOperationName(each($0.extensions).0)', [(yes2, no2)], src='$0.extensions')
    else:
        rep(I + 'RepeatedOperationName(each($0.transitions).0)', [(yes, no)], src='$0.transitions')
    d = '$0.default_operation'
    t, x = known('$0.transitions', d + '@Some'), known('$0.extensions', d + '@Some')
    rep(I + 'UnknownDefaultOp(%s@Some)' % d, [([d + ' is Some'], [d + ' is None']), (t[1], t[0]), (x[1], x[0])])
    for defs, lst, what in (('global_state', 'globals', 'Global'), ('assignments', 'assignments', 'Assignment'), ('valencies', 'valencies', 'Valency')):
        e = 'each($0.%s)' % defs
        yes, no = known('$0.genesis.' + lst, e + '.0')
        rep(I + 'Required%sAbsent(%s.0)' % (what, e), [([e + '.1.required'], ['!' + e + '.1.required']), (no, yes)], src='$0.' + defs)
    verdict(ck, S, g, 'IfaceInconsistency', items)
    S = 'Iface::types'
    fn = p.find('types', 'Iface')
    gl, ow = 'each($0.global_state).1.sem_id', 'each($0.assignments).1.owned_state'
    i0, i1, i2 = 'each($0.metadata).1', gl + '@Some', ow + '@Data'
    g = None
    for src, item, conds in (('$0.metadata', i0, []),
                             ('$0.global_state', i1, [('it has a type', [gl + ' is Some'], [gl + ' is None'])]),
                             ('$0.assignments', i2, [('it is data', [ow + ' is Data'], [ow + ' isnot Data'])])):
        g, _ = listing(ck, S, fn, src, [item], conds, what='the list of types', g=g, allow=[i0, i1, i2])
