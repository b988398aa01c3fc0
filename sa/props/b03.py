"""operation builders: the operation made from what was given"""
from rules import *

RULE = '''MIR of the completion of a transition and of the issuing of a contract, helpers and closures inlined. The parts of the
operation are traced back to the builder: every seal and state of each of the four collections, for each type, is in one assignment of
the matching form with the same seal and state, under its type; metadata, global state, inputs, nonce, type, contract, tags, network and
issuer are those of the builder. The blinding factor of the last assignment of a fungible type, and no other, is replaced, by the
one balancing all the inputs of that type against all the other outputs. A contract is returned only if its validation
succeeds, and it is the validated one.'''
FLOOR = 179
KINDS = {'fungible': 'Fungible', 'data': 'Structured', 'rights': 'Declarative', 'attachments': 'Attachment'}
KEEP = {'add', 'slice::last_mut', 'store', 'extend'}


def flat(t, out, ops):
    """the items put into a collection, following conversions and merges"""
    if t.op == 'phi':
        for x in alts(t):
            flat(x, out, ops)
    elif t.op == 'pay' or (t.op == 'call' and str(t.a[0]).startswith(('conv', 'size_check'))):
        flat(next(x for x in t.a if isinstance(x, Term)), out, ops)
    elif t.op == 'upd':
        flat(t.a[0], out, ops)
        for o in t.a[1]:
            ops.add(o[0])
            if o[0] == 'add':
                x = o[1]
                if isinstance(x, Term) and x.op == 'elem':
                    flat(x.a[0], out, ops)
                else:
                    out.append(x)
            elif o[0] == 'extend':
                flat(o[1], out, ops)
    elif not show(t).startswith(('empty<', 'hole<', 'default')):
        out.append(t)


def counts(l):
    return l[0] == 'b' and l[1].op in ('lt', 'eq') and 'len(' in show(l[1])


def entry(src):
    return lambda n, e: e is not None and e.name == 'add' and show(field(e.args[1], '0')) == 'each(%s).0' % src


def assigns(ck, site, g, t, genesis):
    ents, ops = [], set()
    flat(t, ents, ops)
    ck.ob(site, ops <= KEEP, 'nothing is taken from the assignments: %s' % sorted(ops - KEEP))
    seen = {}
    for x in ents:
        k, v = show(field(x, '0')), field(x, '1')
        c = next((c for c in KINDS if k == 'each($0.builder.%s).0' % c), None)
        ck.ob(site, c is not None, 'assignments are those given to the builder, under their types: %s' % cutstr(k))
        if c is None:
            continue
        ck.ob(site, v.op == 'agg' and v.a[1] == KINDS[c], '%s are assigned as such: %s' % (c, cutstr(show(v), 60)))
        if v.op != 'agg':
            continue
        its, iops = [], set()
        flat(field(v, '0'), its, iops)
        bad = iops - KEEP if c == 'fungible' else iops - {'add', 'extend'}
        ck.ob(site, not bad, '%s: nothing is changed after it was put: %s' % (c, sorted(bad)))
        s, st = ('each(each($0.builder.%s).1)' % c, 'default:VoidState()') if c == 'rights' else ('each(each($0.builder.%s).1).0' % c, 'each(each($0.builder.%s).1).1' % c)
        want = {'Assign::Revealed{seal: %s@Revealed, state: %s, lock: default:ReservedBytes()}' % (s, st),
                'Assign::ConfidentialSeal{seal: %s@Concealed, state: %s, lock: default:ReservedBytes()}' % (s, st)}
        got = {show(i) for i in its}
        ck.ob(site, got == want, '%s: each assignment has its seal and state: %s' % (c, [cutstr(i, 200) for i in sorted(got ^ want)]))
        seen.setdefault(c, set()).update(got)
    for c in KINDS:
        ck.ob(site, c in seen, '%s given to the builder are assigned' % c)
        src = '$0.builder.' + c
        inner = seen.get(c, set())
        ck.hold(site, g.foreach('each(%s).1' % src, lambda e: e.name == 'add' and show(e.args[1]) in inner, target=entry(src)), 'every seal of %s is assigned' % c)
        ck.hold(site, g.foreach(src, lambda e: e.name == 'add' and show(field(e.args[1], '0')) == 'each(%s).0' % src), 'every type of %s is assigned' % c)


def blinding(ck, site, g, genesis):
    f = '$0.builder.fungible'
    own = 'each(each(%s).1).1.blinding' % f
    inp = 'each($0.inputs).1@Amount.1'
    calls = g.events('BlindingFactor::zero_balanced')
    ck.ob(site, bool(calls), 'the blinding factors are balanced')
    for e in calls:
        for x in alts(e.args[0]):
            if show(x).startswith('[') or show(x).startswith('empty<>+<add(BlindingFactor('):
                ck.ob(site, show(x) in (show_list(ck, x), ), 'no input counts as an empty factor: %s' % cutstr(show(x)))
            else:
                some = ['!(0 == len(%s))' % show(x), '(0 < len(%s))' % show(x), '!(len(%s) < 1)' % show(x)]
                ck.hold(site, g.only_if(lambda z: z is e, some), 'the absence of inputs is balanced as an empty factor', loc=e.loc)
                ck.ob(site, not genesis and show(x) in ('empty<>+<add(%s)>' % inp, 'empty<>'), 'the inputs are those of the type: %s' % cutstr(show(x)))
        out, ops = [], set()
        flat(e.args[1], out, ops)
        ck.ob(site, {show(x) for x in out} == {own} and ops <= {'add', 'pop'} and 'pop' in ops, 'they are balanced against the other outputs: %s' % cutstr(show(e.args[1])), loc=e.loc)
    adds = [e for e in g.events('add') if show(e.args[1]) == inp]
    same = ['(each(%s).0 == each($0.inputs).0.prev_out.ty)' % f, '(each($0.inputs).0.prev_out.ty == each(%s).0)' % f]
    if not genesis:
        ck.ob(site, bool(adds), 'factors of the inputs are taken')
        for e in adds:
            ck.hold(site, g.only_if(lambda z: z is e, same), 'only inputs of the type are balanced', loc=e.loc)
        no = ['!' + x for x in same]
        ck.hold(site, g.foreach('$0.inputs', lambda e: e in adds, no, target=lambda n, e: e is not None and e.name == 'BlindingFactor::zero_balanced'), 'every input of the type is balanced')
    # each output has its factor counted
    ck.hold(site, g.foreach('each(%s).1' % f, lambda e: e.name == 'add' and show(e.args[1]) == own, target=entry(f)), 'every output is balanced')
    st = [(n, e) for n in g.nodes for e in n.events if e.kind == 'store' and e.name.endswith('blinding')]
    ck.ob(site, bool(st), 'the balancing factor is set')
    for n, e in st:
        ck.ob(site, m(e.args[1], 'BlindingFactor::zero_balanced(*)@Ok'), 'it is the balancing one: %s' % cutstr(show(e.args[1])), loc=e.loc)
        ck.ob(site, all(m(x, 'Assign::as_revealed_state_mut(slice::last_mut(*)@Some*)@Some') for x in alts(e.args[0])), 'it is set on the last output: %s' % cutstr(show(e.args[0])), loc=e.loc)
    stores = {id(e) for _, e in st}
    w = g.reach([t for _, t, _ in g.edges(['next ' + f])], entry(f),
                cut_ev=lambda e: id(e) in stores, cut_edge=lambda l: lm(l, ['slice::last_mut(*) is None']))
    ck.ob(site, w is None, 'every fungible type is balanced', w and g.describe(w))


def show_list(ck, x):
    s = show(x)
    return s if s.count('BlindingFactor(') == 1 and not s.strip('[]').startswith('BlindingFactor::') else '?'


def parts(ck, site, v, want):
    for f, w in want.items():
        got = show(field(v, f))
        ck.ob(site, m(field(v, f), aslist(w)), '%s is the one of the builder: %s' % (f, cutstr(got)))


def check(ck):
    p = ck.p
    site = 'TransitionBuilder::complete_transition'
    g = ck.graph(G(p, p.find('complete_transition', 'TransitionBuilder'), ['BlindingFactor::*', 'Assign::as_revealed_state_mut'], split=counts))
    vals = [v for _, r in g.rets() for v in okval(r)]
    ck.ob(site, bool(vals), 'a transition is returned')
    for v in vals:
        parts(ck, site, v, {'contract_id': '$0.contract_id', 'nonce': '$0.nonce', 'transition_type': '$0.transition_type', 'metadata': '$0.builder.meta',
                            'globals': '$0.builder.global', 'inputs': 'conv:Inputs(empty<>+<add(each($0.inputs).0)>)'})
        assigns(ck, site, g, field(v, 'assignments'), False)
    blinding(ck, site, g, False)

    for name in ('issue_contract', 'issue_contract_det'):
        site = 'ContractBuilder::' + name
        g = ck.graph(G(p, p.find(name, 'ContractBuilder'), ['BlindingFactor::*', 'Assign::as_revealed_state_mut', 'Consignment::validate', 'Schema::*', 'Utc::*', 'DateTime::*'], split=counts))
        calls = g.events('Consignment::validate')
        ck.ob(site, bool(calls), 'the contract is validated')
        for e in calls:
            c = e.args[0]
            gen = field(c, 'genesis')
            parts(ck, site, gen, {'schema_id': 'Schema::schema_id($0.builder.schema)', 'timestamp': '$1' if name.endswith('_det') else 'DateTime::timestamp(Utc::now())',
                                  'testnet': '$0.testnet', 'alt_layers1': '$0.alt_layers1', 'asset_tags': '$0.builder.asset_tags', 'metadata': '$0.builder.meta',
                                  'globals': '$0.builder.global', 'issuer': '$0.issuer'})
            parts(ck, site, c, {'transfer': 'false', 'schema': '$0.builder.schema', 'types': '$0.builder.types', 'ifaces': '*($0.builder.iface, $0.builder.iimpl)*',
                                'scripts': '*each($0.scripts)*'})
            for f in ('terminals', 'extensions', 'bundles', 'attachments', 'supplements', 'signatures'):
                ck.ob(site, show(field(c, f)).startswith(('empty<', 'default')), 'a new contract has no %s' % f)
            ck.ob(site, show(e.args[2]) == '$0.testnet', 'it is validated for its network')
            assigns(ck, site, g, field(gen, 'assignments'), True)
        blinding(ck, site, g, True)
        ok = ['Consignment::validate(* is Ok']
        ck.hold(site, g.must(None, ok), 'only a valid contract is returned')
        for _, r in g.rets():
            for v in okval(r):
                ck.ob(site, m(v, 'Consignment::validate(*)@Ok'), 'it is the validated one: %s' % cutstr(show(v)))
