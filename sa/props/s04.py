"""reading of global state"""
import re
from rules import *

RULE = '''From MIR: the reader of global state of a contract refuses exactly the types the contract does not have; otherwise
the sequence it gives consists of the stored items of the requested type only, limited by the limit of the same type: an
item of genesis is always part of it, an item of a transition or an extension exactly if its witness is known to the view
and not archived, each with its own value and the position made of its own operation, index, type, nonce and the status of
its own witness. The sequence is ordered by position. Restarting and counting use a fresh sequence equal to the original
one, stepping hands out the items one by one, and counting and looking at the current item change nothing. Contract state
starts with every global type of the schema, empty and with the limit of that type. Reading by a name given by an
interface uses the type of that name and decodes values with the type of the same global state.'''
FLOOR = 20
OUT = 'get($0.unfiltered.global, $1)'
SRC = OUT + '@Some.known'
X = 'each(%s)' % SRC


def valid(w):
    got = 'get($0.filter, %s)' % w
    g = got + '@Some'
    pos = [g + ' isnot Archived', g + ' is Mined', g + ' is Tentative', g + ' is Ignored', 'WitnessOrd::is_valid(%s)' % g,
           '!(%s == WitnessOrd::Archived)' % g, '!(WitnessOrd::Archived == %s)' % g]
    neg = [got + ' is None', g + ' is Archived', '!WitnessOrd::is_valid(%s)' % g, '(%s == WitnessOrd::Archived)' % g,
           '(WitnessOrd::Archived == %s)' % g]
    return g, pos, neg


def orders():
    k = X + '.0'
    ow = k + '.op_witness'
    out = {'Genesis': (['GlobalOrd::genesis(%s.index)' % k], [], [])}
    for v, f in (('Transition', 'transition'), ('Extension', 'extension')):
        ps, ns, fs = [], [], []
        for w in (ow + '@' + v, ow + '@' + v + '.0'):
            g, pos, neg = valid(w)
            ps += pos
            ns += neg
            fs.append('GlobalOrd::%s(%s.opid, %s.index, %s@%s.1, %s.nonce, %s)' % (f, k, k, ow, v, k, g))
        out[v] = (fs, ps, ns)
    return out


def items(ck, S, it):
    """the items of a sequence"""
    if not (it.op == 'call' and it.a[0] == 'Iterator::take'):
        ck.ob(S, False, 'the sequence is limited: %s' % cutstr(show(it)))
        return
    lim = it.a[2]
    ck.ob(S, m(lim, [x % (OUT + '@Some.limit') for x in ('u24::to_usize(%s)', 'u24::into_usize(%s)', 'conv:usize(%s)', 'u24::to_u32(%s) as usize',
                                                         'u24::into_u32(%s) as usize', 'u24::as_u32(%s) as usize')]),
          'the limit is that of the requested type: %s' % show(lim))
    h = drain(ck, it.a[1])
    adds = h.events('add')
    ck.ob(S, bool(adds), 'items are handed out')
    os = orders()
    ow = X + '.0.op_witness'
    for e in adds:
        v = e.args[1]
        o, d = (field(v, '0'), field(v, '1')) if v.op in ('tuple', 'agg') else (None, None)
        ck.ob(S, o is not None and mf(d, X + '.1'), 'the value is that of the item: %s' % cutstr(show(v)))
        for a in (alts(o) if o is not None else []):
            ck.ob(S, any(m(a, fs) for fs, _, _ in os.values()), 'the position is made of the parts of the item: %s' % cutstr(show(a)))
    for v, (fs, ps, ns) in os.items():
        # graph of the items of one kind of operation
        edges = h.edges(['%s is %s' % (ow, v)])
        ck.ob(S, bool(edges), 'items of %s are told apart' % v.lower())
        other = lambda l: lm(l, ['%s is %s' % (ow, x) for x in os if x != v])
        heads = {n.id for n, _, _ in h.edges(['next ' + SRC, 'end ' + SRC])}
        back = lambda n, e: e is None and (n.id in heads or n.ret is not None)
        put = E('add')
        x = h.reach([t for _, t, _ in edges], back, put, lambda l: other(l) or lm(l, ns))
        ck.ob(S, x is None and bool(edges), 'no item of %s is left out%s' % (v.lower(), ' unless its witness is unknown or archived' if ns else ''),
              x and h.describe(x))
        for e in adds:
            o = field(e.args[1], '0') if e.args[1].op in ('tuple', 'agg') else None
            if o is None:
                continue
            ck.ob(S, any(m(a, fs) for a in alts(o)), 'there is a position for items of %s' % v.lower())
        if ps:
            x = h.reach([t for _, t, _ in edges], lambda n, e: e is not None and put(e), None, lambda l: other(l) or lm(l, ps))
            ck.ob(S, x is None and bool(edges), 'an item of %s is listed only if its witness is known and not archived' % v.lower(),
                  x and h.describe(x))
    # a position belongs to the kind of the operation
    hs = ck.graph(G(ck.p, ck.p.models['iter_collect'], (), argterms=[it.a[1]], split=lambda l: lm(l, [ow + ' is *'])))
    for v, (fs, _, _) in os.items():
        for e in hs.events('add'):
            o = field(e.args[1], '0') if e.args[1].op in ('tuple', 'agg') else None
            if o is None:
                continue
            mine = [a for a in alts(o) if m(a, fs)]
            if not mine:
                continue
            if len(alts(o)) == 1:
                ck.hold(S, hs.only_if(lambda x, e=e: x is e, ['%s is %s' % (ow, v)]), 'a position of %s is given only to its items' % v.lower())
    ck.hold(S, h.foreach(SRC, E('add'), unless=['%s is %s' % (ow, v) for v in os]), 'every stored item is looked at')
    return it


def counted(x):
    """a counter increased by one for each item"""
    return re.fullmatch(r'0\+<(acc\(\((hole<>|\{1 \| hole<>\}) Add 1\)\)(; )?)+>', x)


def final(n):
    """fields of the object set on the way to a return"""
    out = {}
    for k, v in n.env.items():
        if k[0] == 'T' and str(k[1]) == '$0':
            if v.op == 'with':
                out.update(('.'.join(str(y[1]) for y in path), x) for path, x in dict(v.a[1]).items())
    for e in n.events:
        if e.kind == 'store':
            out[e.name.lstrip('.')] = e.args[-1]
    return out


def check(ck):
    p = ck.p
    f = p.find('global', 'MemContract', 'ContractStateAccess')
    S = 'MemContract::global'
    g = ck.graph(G(p, f))
    none = [OUT + ' is None']
    ck.hold(S, g.must(lits=[OUT + ' is Some']), 'a type the contract does not have is refused')
    ck.ob(S, bool(g.edges(none)) and not g.events(kind='panic'), 'the types are looked up, without a panic')
    errs = [(n, r) for n, r in g.rets() if r.op == 'agg' and r.a[1] == 'Err']
    for n, r in errs:
        ck.ob(S, m(r, 'Result::Err(UnknownGlobalStateType($1))'), 'the refusal names the type: %s' % show(r))
        ck.hold(S, g.ret_only_if('Result::Err(*', none), 'only unknown types are refused')
    vs = [v for _, r in g.rets() for v in okval(r)]
    ck.ob(S, bool(vs), 'a sequence is given')
    for v in vs:
        it = v.a[1] if v.op == 'call' and v.a[0] == 'GlobalContractState::new' else None
        if it is None or it.op != 'agg':
            ck.ob(S, False, 'the sequence is handed to the ordered reader: %s' % cutstr(show(v)))
            continue
        items(ck, S, field(it, 'iter'))
        ck.ob(S, m(field(it, 'last'), 'Option::None'), 'nothing is read before the first item')
        # fresh sequences
        c = field(it, 'constructor')
        cf = next((x for x in p.fns.values() if x.path.startswith(f.path + '::{closure') and c.op == 'agg' and x.h in str(c.a[0])), None)
        if cf is None:
            cf = next((x for x in p.fns.values() if x.h in str(c.a[0])), None) if c.op in ('agg', 'fn') else None
        ck.ob(S, cf is not None, 'the sequence can be made again')
        if cf is not None:
            k = ck.graph(G(p, cf, argterms=[c, field(it, 'src')]))
            for _, r in k.rets():
                ck.ob(S, show(r) == show(field(it, 'iter')), 'a sequence made again is equal to the first: %s' % cutstr(show(r)))
    # order
    adt = p.adt('MemGlobalState')
    kt = [x[1] for va in p.adts[adt]['variants'] for x in va['fields'] if x[0] == 'known']
    sort = [e for e in g.events() if 'sort' in e.name]
    ck.ob('MemContract::global: order', bool(sort) or any(re.search(r'Map<[^,<]*GlobalOrd\b', t) for t in kt),
          'the items are ordered by their position; they are kept as %s' % kt)
    # stepping, counting, restarting
    it = lambda n: ck.graph(G(p, next(x for x in p.fns.values() if x.name == n and x.path.startswith('rgbstd::<<persistence::memory::MemContract')
                                      and 'GlobalStateIter' in x.path)))
    fresh = 'call($0.constructor, $0.src)'
    S = 'GlobalStateIter::size'
    g = it('size')
    for _, r in g.rets():
        x = re.sub(r'^(try)?conv:u24\((.*?)( as u\d+|)\)(@Ok)?$', r'\2', show(r))
        lone = not [l for _, _, ls in g.edges(lambda l: True) for l in ls if not lm(l, ['next ' + fresh, 'end ' + fresh, 'tryconv:u24*'])]
        ck.ob(S, x in ('reduced(%s)' % fresh, 'len(%s)' % fresh) or lone and counted(x), 'all items are counted: %s' % cutstr(show(r)))
    ck.ob(S, not g.events(kind='store'), 'counting changes nothing', [e.args and show(e.args[-1]) for e in g.events(kind='store')])
    S = 'GlobalStateIter::last'
    g = it('last')
    for _, r in g.rets():
        ck.ob(S, m(r, '$0.last') or m(r, 'Option::Some($0.last@Some)') or m(r, 'Option::None'), 'the current item is given: %s' % cutstr(show(r)))
    ck.ob(S, not g.events(kind='store'), 'looking at the current item changes nothing')
    S = 'GlobalStateIter::prev'
    g = it('prev')
    nx, end = ['next $0.iter'], ['end $0.iter']
    ck.ob(S, bool(g.edges(nx)), 'the next item is taken')
    keep = lambda pat: (lambda e: e.kind == 'store' and e.name.endswith('last') and m(e.args[-1], pat))
    some, no = ['Option::Some(each($0.iter))'], ['Option::None']
    ck.hold(S, g.after(nx, keep(some), target=lambda n, e: e is None and n.ret is not None), 'the item taken is kept as the current one')
    ck.hold(S, g.after(end, keep(no), target=lambda n, e: e is None and n.ret is not None), 'there is no current item after the last one')
    for n, r in g.rets():
        for a in alts(r):
            ck.ob(S, m(a, some + no), 'the item taken is given: %s' % cutstr(show(a)))
    x = g.reach([t for _, t, _ in g.edges(nx)], lambda n, e: e is None and n.ret is not None and not m(n.ret, some), None, lambda l: lm(l, end))
    ck.ob(S, x is None, 'an item taken is not lost', x and g.describe(x))
    S = 'GlobalStateIter::reset'
    g = it('reset')
    nth = 'u24::to_usize($1)'
    want = {'iter': fresh + '+<Iterator::nth(%s)>' % nth, 'last': 'Iterator::nth(%s, %s)' % (fresh, nth)}
    for n, _ in g.rets():
        now = final(n)
        for k, v in want.items():
            ck.ob(S, k in now and show(now[k]) == v, '%s: %s' % ({'iter': 'restarting goes on after the depth asked for in a fresh sequence',
                                                                 'last': 'the current item is the one at the depth asked for'}[k],
                                                                 cutstr(show(now[k])) if k in now else 'not set'))
        ck.ob(S, not set(now) - set(want), 'restarting sets nothing else: %s' % sorted(set(now) - set(want)))
    # starting state
    S = 'MemContractState::new'
    g = ck.graph(G(p, p.find('new', 'MemContractState')))
    src = '$0.global_types'
    e = 'each(%s)' % src
    item = '(%s.0, MemGlobalState{known: *, limit: %s.1.max_items})' % (e, e)
    ck.hold(S, g.foreach(src, E('add', None, [item])), 'every global type of the schema is present with its limit')
    for ev in g.events('add'):
        ck.ob(S, m(ev.args[1], '(%s.0, MemGlobalState{known: empty<>, limit: %s.1.max_items})' % (e, e)), 'nothing else is present: %s' % cutstr(show(ev.args[1])))
    for _, r in g.rets():
        ck.ob(S, m(field(r, 'contract_id'), '$1') and m(field(r, 'schema_id'), 'Schema::schema_id($0)'), 'the state is that of the contract and schema')
        for k in ('rights', 'fungibles', 'data', 'attach'):
            ck.ob(S, m(field(r, k), ['empty<>', 'default<>']), 'there is no owned state')
    # reading by name
    S = 'ContractIface::global'
    g = ck.graph(G(p, p.find('global', 'ContractIface')))
    b = '$0.iface.global_state'
    e = 'each(%s)' % b
    eq = ['($1 == %s.name)' % e, '(%s.name == $1)' % e]
    ck.hold(S, g.must(lits=eq), 'the type is the one of the name asked for')
    for n, r in g.rets():
        if r.op == 'agg' and r.a[1] == 'Err':
            ck.ob(S, m(r, 'Result::Err(ContractError::FieldNameUnknown($1))'), 'an unknown name is reported: %s' % show(r))
            ck.hold(S, g.ret_only_if('Result::Err(*', ['end ' + b]), 'only an unknown name is refused')
            continue
        for v in okval(r):
            if not lazy(v):
                ck.ob(S, False, 'the values are handed out as read: %s' % cutstr(show(v)))
                continue
            h = drain(ck, v)
            t = 'ContractStateAccess::global($0.state, %s.id)@Ok' % e
            ck.hold(S, h.foreach(t, E('add')), 'every value is handed out')
            ad = h.events('add')
            ck.ob(S, bool(ad), 'values are handed out')
            for ev in ad:
                ck.ob(S, m(ev.args[1], '*strict_deserialize_type(*get($0.schema.global_types, %s.id)@Some.sem_id, *each(%s)*' % (e, t)),
                      'a value is decoded with the type of its own state: %s' % cutstr(show(ev.args[1])))
