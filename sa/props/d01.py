"""state of a contract on given outputs"""
from rules import *

RULE = '''MIR of the query for the state of a contract on given outputs, helpers and closures inlined down to the four readers of the
contract state. Each item of each reader whose seal is on one of the given outputs is put into the result under its own seal and its own
operation output with its own state in the matching form, on every path to a success; nothing else is put there and nothing is
taken out. The outputs compared with are all of the given ones. The questions about contracts on outputs are answered by the index for these
very outputs.'''
FLOOR = 17
KINDS = {
    'fungible_all': ['PersistedState::Amount(Amount(FungibleState::as_u64(%s.state.value)), %s.state.blinding, %s.state.tag)',
                     'PersistedState::Amount(conv:Amount(%s.state.value), %s.state.blinding, %s.state.tag)'],
    'data_all': ['PersistedState::Data(%s.state.value, %s.state.salt)'],
    'rights_all': ['PersistedState::Void'],
    'attach_all': ['PersistedState::Attachment(conv:AttachState(%s.state), %s.state.salt)',
                   'PersistedState::Attachment(AttachState{id: %s.state.id, media_type: %s.state.media_type}, %s.state.salt)'],
}


def entries(g):
    """(event, key of the entry or None, item) for everything put into maps"""
    inners = set()
    for e in g.events('add'):
        v = field(e.args[1], '1') if e.args[1].op == 'agg' and len(e.args[1].a[2]) == 2 else None
        while v is not None and v.op == 'upd':
            inners |= {x[1] for x in v.a[1] if x[0] == 'add'}
            v = v.a[0]
    for e in g.events('add'):
        it = e.args[1]
        if it.op != 'agg' or len(it.a[2]) != 2:
            continue
        k, v = field(it, '0'), field(it, '1')
        inner, b = [], v
        while b.op == 'upd':
            inner += [x[1] for x in b.a[1] if x[0] == 'add']
            b = b.a[0]
        if inner:
            for x in inner:
                yield e, k, x
        elif e.dst.keys:
            yield e, e.dst.keys[-1], it
        elif it in inners and m(e.args[0], 'empty<>*'):
            continue    # into a map which is put into the result itself
        elif not show(v).startswith(('empty<', 'default')):
            yield e, None, it


def check(ck):
    p = ck.p
    S = 'Stock::contract_assignments_for'
    g = ck.graph(G(p, p.find('contract_assignments_for', 'Stock'), ['Stock::contract_state', 'StateReadProvider::contract_state', 'State::contract_state', 'ContractStateRead::*']))
    st = sorted({show(e.args[0]) for e in g.events() if e.kind == 'call' and e.name.startswith('ContractStateRead::')})
    ck.ob(S, len(st) == 1 and '$1' in st[0] and '@Ok' in st[0], 'the state of the asked contract is read: %s' % st)
    ck.hold(S, g.foreach('$2', E('add', None, ['conv:XOutpoint(each($2))', 'each($2)'])), 'all given outputs are looked for')
    seen = list(entries(g))
    done = set()
    for rd, forms_ in KINDS.items():
        src = 'ContractStateRead::%s(%s)' % (rd, st[0])
        x = 'each(%s)' % src
        seal, opout = x + '.seal', x + '.opout'
        vals = [f % ((x,) * f.count('%s')) for f in forms_]
        here = [['contains(*, conv:XOutpoint(%s))' % seal], ['!contains(*, conv:XOutpoint(%s))' % seal]]
        evs = []
        for e, k, it in seen:
            if not mf(field(it, '0'), opout):
                continue
            done.add(e)
            ck.ob(S, k is not None and mf(k, seal), '%s: kept under its seal: %s' % (rd, cutstr(show(k)) if k else None), loc=e.loc)
            ck.ob(S, mf(field(it, '1'), vals), '%s: the state is kept as it is: %s' % (rd, cutstr(show(field(it, '1')))), loc=e.loc)
            evs.append(e)
            ck.hold(S, g.only_if(lambda z, e=e: z is e, here[0]), '%s: only state on the given outputs is reported' % rd, loc=e.loc)
        ck.ob(S, bool(evs), '%s is reported' % rd)
        ck.ob(S, bool(g.edges(here[0])), '%s: seals are compared with the given outputs' % rd)
        ck.hold(S, g.foreach(src, lambda e, evs=evs: any(e is z for z in evs), unless=here[1]), '%s: all state on the given outputs is reported' % rd)
    for e, k, it in seen:
        ck.ob(S, e in done, 'nothing else is reported: %s' % cutstr(show(it)), loc=e.loc)
    for e in g.events('contains'):
        if 'conv:XOutpoint(each(ContractStateRead' in show(e.args[1]):
            ck.ob(S, m(e.args[0], ['empty<>+<add(conv:XOutpoint(each($2)))>', 'empty<>+<add(each($2))>']), 'the given outputs are compared with: %s' % cutstr(show(e.args[0])), loc=e.loc)
    for e in g.events(['remove', 'clear', 'retain', 'pop']):
        ck.ob(S, False, 'nothing is taken out', loc=e.loc)
    for n, r in g.rets():
        for v in okval(r):
            ck.ob(S, v.op in ('upd', 'phi') or show(v).startswith('empty'), 'the collected state is returned: %s' % cutstr(show(v), 60))
    # questions answered by the index
    S = 'Stock::contracts_assigning'
    g = ck.graph(G(p, p.find('contracts_assigning', 'Stock'), ['IndexReadProvider::*']))
    q = g.events('IndexReadProvider::contracts_assigning')
    ck.ob(S, len(q) >= 1, 'the index is asked')
    for e in q:
        a = e.args[1]
        ck.ob(S, m(a, ['$1', 'conv:XOutpoint(each($1))', 'empty<>+<add(conv:XOutpoint(each($1)))>', 'empty<>+<add(each($1))>', '*Map{iter: $1, f: *}']), 'about the given outputs: %s' % cutstr(show(a)), loc=e.loc)
        if a.op == 'upd':
            ck.hold(S, g.foreach('$1', E('add', None, ['conv:XOutpoint(each($1))', 'each($1)']), target=lambda n, z: z is e), 'about all given outputs')
    for n, r in g.rets():
        for v in okval(r):
            ck.ob(S, m(v, ['IndexReadProvider::contracts_assigning(*)@Ok', 'conv:*(IndexReadProvider::contracts_assigning(*)@Ok)']), 'its answer is returned: %s' % cutstr(show(v)))
