"""invoice builder"""
from rules import *

RULE = '''Every public method of the invoice builder is evaluated over all of its paths: the returned builder differs from
the given one in exactly the one part the method is named for, that part holds the value given by the caller, refusals
return the builder unchanged. Decimal amounts become integer * multiplier + fraction, only where the fraction is smaller
than one coin and neither the product nor the sum overflows, and are refused only otherwise, with no panic reachable
before these tests. Endpoints are appended to those present, where only the lone "unspecified" one is dropped.'''
FLOOR = 150
T = 'RgbInvoiceBuilder'
CH = ['path:*RgbTransport*FromStr*', 'path:*FromStr*RgbTransport*', 'Precision::multiplier']
SAME = dict(transports=None, contract=None, iface=None, operation=None, assignment=None, beneficiary=None, owned_state=None,
            expiry=None, unknown_query=None)


def conv(v, *tys):
    return [v] + ['conv:%s(%s)' % (t, v) for t in tys] + ['%s(%s)' % (t, v) for t in tys]


def some(forms):
    return ['Option::Some(%s)' % f for f in forms]


def fields(ck, S, t, changed, base='$0.0'):
    """parts of the built invoice"""
    for f in SAME:
        want = changed.get(f, [base + '.' + f] if base else ['?'])
        v = field(field(t, '0'), f)
        for a in alts(v):
            ck.ob(S, want(a) if callable(want) else m(a, want), '%s of the built invoice is %s' % (f, cutstr(show(a), 200)))


def simple(ck, name, changed, base='$0.0', wrap=False):
    p, S = ck.p, T + '::' + name
    g = ck.graph(G(p, p.find(name, T), CH))
    ck.ob(S, bool(g.rets()), 'returns')
    for n, r in g.rets():
        for a in alts(r):
            if wrap:
                ck.ob(S, a.op == 'agg' and a.a[1] == 'Ok', 'is not refused: %s' % cutstr(show(a)))
                a = field(a, '0')
            fields(ck, S, a, changed, base)
    ck.ob(S, not nopanic(g), 'does not panic: %s' % nopanic(g))


def strip(t):
    while True:
        if t.op == 'agg' and str(t.a[0]).endswith('::Amount') and len(t.a[2]) == 1:
            t = t.a[2][0][1]
        elif show(t).startswith('conv:') and t.op == 'call' and len(t.a) == 2:
            t = t.a[1]
        elif t.op == 'field' and t.a[1] == '0' and show(t.a[0]).startswith('conv:'):
            t = t.a[0]
        else:
            return t


def mult(t, prec):
    return m(t, ['Precision::multiplier(%s)' % p for p in conv(prec, 'Precision')] + ['u64::pow(10, *discr(%s)*)' % p for p in conv(prec, 'Precision')])


def ops(t, word, sym):
    """operands of checked, saturating, wrapping or plain machine operation"""
    t = strip(t)
    if t.op == 'as' or t.op == 'some':
        t = t.a[0]
    s = show(t)
    if s.endswith('@Some'):
        t = t.a[0]
    if t.op == 'call' and t.a[0] in ('u64::checked_' + word, 'u64::saturating_' + word):
        return t.a[1:]
    if t.op == 'bin' and t.a[0] == sym:
        return t.a[1:]
    return None


def product(t, i, prec):
    o = ops(t, 'mul', 'Mul')
    return o is not None and any(show(strip(a)) == i and mult(b, prec) for a, b in (o, o[::-1]))


def total(t, i, f, prec):
    o = ops(t, 'add', 'Add')
    return o is not None and any(product(a, i, prec) and show(strip(b)) == f for a, b in (o, o[::-1]))


def amount(ck):
    p, S = ck.p, T + '::set_amount'
    g = ck.graph(G(p, p.find('set_amount', T), CH))
    cond = lambda test, val: lambda l: l[0] == 'is' and l[2] == val and test(l[1])
    mul = lambda t: product(t, '$1', '$3') and ops(t, 'mul', 'Mul') is not None and 'checked_mul' in show(t)[:30]
    add = lambda t: total(t, '$1', '$2', '$3') and 'checked_add' in show(t)[:30]
    fits = lambda l: lm(l, ['($2 < u64::pow(10, *discr(*$3)*))', '($2 < Precision::multiplier(*$3))', '($2 < Precision::multiplier(conv:Precision($3)))'])
    large = lambda l: lm(l, ['!($2 < u64::pow(10, *discr(*$3)*))', '!($2 < Precision::multiplier(*$3))', '!($2 < Precision::multiplier(conv:Precision($3)))'])
    none = lambda l: cond(mul, 'None')(l) or cond(add, 'None')(l)
    okn = {n for n, r in g.rets() if any(a.op == 'agg' and a.a[1] == 'Ok' for a in alts(r))}
    errn = {n for n, r in g.rets() if any(a.op == 'agg' and a.a[1] == 'Err' for a in alts(r))}
    ck.ob(S, okn and errn and not okn & errn, 'sets the amount or refuses')
    for n, r in g.rets():
        for a in alts(r):
            if n in errn:
                ck.ob(S, show(a) == 'Result::Err($0)', 'a refusal returns the builder unchanged: %s' % cutstr(show(a)))
            else:
                st = lambda x: x.op == 'agg' and x.a[1] == 'Amount' and total(x.a[2][0][1], '$1', '$2', '$3')
                fields(ck, S, field(a, '0'), {'owned_state': st})
    ret = lambda ns: lambda n, e: e is not None and e.kind == 'ret' and n in ns
    for cut, what in ((fits, 'the fraction is smaller than one coin'), (cond(add, 'Some'), 'the sum does not overflow')):
        w = g.reach([g.a.entry], ret(okn), None, cut)
        ck.ob(S, w is None, 'an amount is set only if %s' % what, w and g.describe(w))
    w = g.reach([g.a.entry], ret(errn), None, lambda l: large(l) or none(l))
    ck.ob(S, w is None, 'an amount is refused only if its fraction or value is too large', w and g.describe(w))
    w = g.reach([g.a.entry], lambda n, e: e is not None and e.kind in ('panic', 'assert'), None, cond(add, 'Some'))
    ck.ob(S, w is None, 'nothing can panic before the value is known to fit', w and g.describe(w))
    w = g.reach([g.a.entry], lambda n, e: e is not None and e.kind == 'panic', None, none)
    ck.ob(S, w is None, 'no panic but for an overflow', w and g.describe(w))


def approx(ck):
    p, S = ck.p, T + '::set_amount_approx'
    g = ck.graph(G(p, p.find('set_amount_approx', T), CH + [T + '::set_amount']))
    calls = g.events(T + '::set_amount')
    ck.ob(S, bool(calls), 'the amount is set')
    whole = ['f64::floor($1)', 'f64::trunc($1)']
    part = ['($1 Sub %s)' % w for w in whole] + ['f64::fract($1)']
    ms = ['Precision::multiplier($2) as f64', 'u64::pow(10, *discr(*$2)*) as f64']
    cents = ['%s as u64' % x for q in part for k in ms for y in ('(%s Mul %s)' % (q, k), '(%s Mul %s)' % (k, q)) for x in (y, 'f64::floor(%s)' % y, 'f64::trunc(%s)' % y, 'f64::round(%s)' % y)]
    for e in calls:
        a = e.args
        ck.ob(S, show(a[0]) == '$0' and show(a[3]) in ('$2', 'conv:Precision($2)'), 'the given builder and precision are used', loc=e.loc)
        ck.ob(S, m(a[1], ['%s as u64' % w for w in whole] + ['$1 as u64']), 'whole coins are the integer part: %s' % cutstr(show(a[1])), loc=e.loc)
        ck.ob(S, m(a[2], cents), 'the fraction is scaled to the smallest units: %s' % cutstr(show(a[2])), loc=e.loc)
    for n, r in g.rets():
        for a in alts(r):
            ck.ob(S, m(a, ['Result::Err($0)', T + '::set_amount($0, *', 'Result::Ok(%s::set_amount($0, *)@Ok)' % T, 'Result::Err(%s::set_amount($0, *)@Err)' % T]),
                  'returns what setting gives or the builder unchanged: %s' % cutstr(show(a)))
    pos = ['(const<Scalar(0x0000000000000000), f64> < $1)', '!($1 <= const<Scalar(0x0000000000000000), f64>)']
    ck.hold(S, g.only_if(lambda e: e in calls, pos), 'only positive amounts are set')
    w = g.reach([g.a.entry], lambda n, e: e is not None and e.kind == 'ret', lambda e: e in calls, lambda l: lm(l, ['!' + pos[0], pos[1][1:]]))
    ck.ob(S, w is None, 'positive amounts are set', w and g.describe(w))
    ck.ob(S, not nopanic(g), 'does not panic: %s' % nopanic(g))


def transports(ck, name, items, many, parse):
    p, S = ck.p, T + '::' + name
    tr = lambda l: l[0] not in ('some', 'none') and 'ransport' in lit(l) and 'each' not in lit(l)
    g = ck.graph(G(p, p.find(name, T), CH, split=tr))
    adds = lambda e: e.name in ('add', 'extend') and m(e.args[0], ['$0.0.transports', '$0.0.transports+<*', 'empty<>', 'empty<>+<*'])
    lists, bad = {}, lambda x: x.op == 'agg' and x.a[1] == 'Err'
    for n, r in g.rets():
        for a in alts(r):
            if parse and bad(a):
                x = field(a, '0')
                ck.ob(S, show(field(x, '0')) == '$0' and m(field(x, '1'), [i[:-2] + 'Err' for i in items]), 'a refusal returns the builder unchanged with the reason: %s' % cutstr(show(a)))
                continue
            if parse:
                ck.ob(S, a.op == 'agg' and a.a[1] == 'Ok', 'the result is a builder: %s' % cutstr(show(a)))
                a = field(a, '0')
            v = field(field(a, '0'), 'transports')
            for t in alts(v):
                own = t
                new = []
                if t.op == 'upd':
                    own = t.a[0]
                    new = [(o[0], x) for o in t.a[1] for x in alts(o[1])]
                elif t.op == 'agg':
                    own, new = mk('empty'), [('add', x) for _, x in t.a[2]]
                ok = show(own) in ('$0.0.transports', 'empty<>') and all(o == 'add' and m(x, items) for o, x in new) and (new or many)
                ck.ob(S, ok, 'endpoints are those present and the given ones: %s' % cutstr(show(t), 200))
                lists.setdefault(show(own), set()).add(n)
            fields(ck, S, a, {'transports': lambda x: True})
    ck.ob(S, set(lists) == {'$0.0.transports', 'empty<>'}, 'endpoints present are kept or dropped: %s' % sorted(lists))
    lone = [['(1 == len($0.0.transports))'], ['$0.0.transports[0] is UnspecifiedMeans', 'first($0.0.transports)*is UnspecifiedMeans']]
    not_lone = ['!(1 == len($0.0.transports))', '$0.0.transports[0] isnot UnspecifiedMeans', '*transports*isnot UnspecifiedMeans']
    whole = ['($0.0.transports == [RgbTransport::UnspecifiedMeans])', '([RgbTransport::UnspecifiedMeans] == $0.0.transports)']
    ret = lambda ns: lambda n, e: e is not None and e.kind == 'ret' and n in ns
    for c in lone:
        w = g.reach([g.a.entry], ret(lists.get('empty<>', set())), None, lambda l: lm(l, c + whole))
        ck.ob(S, w is None, 'endpoints are dropped only if %s' % c[0], w and g.describe(w))
    w = g.reach([g.a.entry], ret(lists.get('$0.0.transports', set())), None, lambda l: lm(l, not_lone + ['!' + x for x in whole]))
    ck.ob(S, w is None, 'a lone unspecified endpoint is dropped', w and g.describe(w))
    oks = set().union(*lists.values()) if lists else set()
    good = lambda e: adds(e) and all(m(x, items) for x in alts(e.args[-1]))
    if many:
        done = [l for n, t, ls in g.edges(lambda l: l[0] == 'none') for l in ls]
        ck.ob(S, bool(done), 'the given endpoints are looked at')
        for n, t, ls in g.edges(lambda l: l[0] == 'some'):
            w = g.reach([t], lambda n, e: e is not None and e.kind == 'ret' and n in oks, lambda e: e.name == 'add' and all(m(x, items) for x in alts(e.args[-1])))
            ck.ob(S, w is None, 'every endpoint given is taken', w and g.describe(w))
        for n, t, ls in g.edges(lambda l: l[0] == 'some' and show(l[1]) == '$1'):
            w = g.reach([t], ret(oks), None, lambda l: lm(l, ['next $1', 'end $1']))
            ck.ob(S, w is None, 'all endpoints given are looked at', w and g.describe(w))
        w = g.reach([g.a.entry], ret(oks), None, lambda l: lm(l, ['end $1']))
        ck.ob(S, w is None, 'all endpoints given are looked at', w and g.describe(w))
    if parse:
        for n, t, ls in g.edges(lambda l: lm(l, [i[:-4] + ' is Err' for i in items])):
            w = g.reach([t], ret(oks))
            ck.ob(S, w is None, 'an endpoint which does not parse is refused', w and g.describe(w))
    ck.ob(S, not [x for x in nopanic(g) if 'index' not in x], 'does not panic: %s' % nopanic(g))


def check(ck):
    p = ck.p
    got = {x[0] for x in p.adts[p.adt('RgbInvoice')]['variants'][0]['fields']}
    ck.ob('RgbInvoice', got == set(SAME), 'all parts of the invoice are analysed: %s' % sorted(got ^ set(SAME)))
    void = dict(transports=['[RgbTransport::UnspecifiedMeans]', 'empty<>+<add(RgbTransport::UnspecifiedMeans)>'], owned_state=['InvoiceState::Void'],
                unknown_query=['empty<>', 'default<>'], **{f: ['Option::None', 'default<>'] for f in ('contract', 'iface', 'operation', 'assignment', 'expiry')})
    b = lambda i: {'beneficiary': conv(i, 'XChainNet')}
    rgb20 = {'iface': some(conv("'RGB20'", 'TypeName') + ["*'RGB20'*"])}
    simple(ck, 'new', {**void, **b('$0')}, None)
    simple(ck, 'with', {**void, **b('$1'), 'contract': some(['$0'])}, None)
    simple(ck, 'rgb20', {**void, **b('$1'), 'contract': some(['$0']), **rgb20}, None)
    simple(ck, 'rgb20_anything', {**void, **b('$0'), **rgb20}, None)
    simple(ck, 'set_contract', {'contract': some(['$1'])})
    simple(ck, 'set_interface', {'iface': some(conv('$1', 'TypeName'))})
    simple(ck, 'set_operation', {'operation': some(conv('$1', 'FieldName', 'VariantName'))})
    simple(ck, 'set_assignment', {'assignment': some(conv('$1', 'FieldName', 'VariantName'))})
    simple(ck, 'set_expiry_timestamp', {'expiry': some(['$1'])})
    simple(ck, 'set_amount_raw', {'owned_state': ['InvoiceState::Amount(%s)' % x for x in conv('$1', 'Amount')]})
    simple(ck, 'set_allocation_raw', {'owned_state': ['InvoiceState::Data(NonFungible::RGB21(%s))' % x for x in conv('$1', 'Allocation')]})
    simple(ck, 'set_allocation', {'owned_state': ['InvoiceState::Data(NonFungible::RGB21(Allocation(%s, %s)))' % (x, y)
                                                  for x in conv('$1', 'TokenIndex') for y in conv('$2', 'OwnedFraction')]}, wrap=True)
    amount(ck)
    approx(ck)
    transports(ck, 'add_transport_raw', ['$1'], False, False)
    transports(ck, 'add_transports_raw', ['each($1)'], True, False)
    transports(ck, 'add_transport', ['parse:RgbTransport($1*)@Ok'], False, True)
    transports(ck, 'add_transports', ['parse:RgbTransport(each($1)*)@Ok'], True, True)
    S = T + '::finish'
    g = ck.graph(G(p, p.find('finish', T)))
    for n, r in g.rets():
        ck.ob(S, show(r) == '$0.0', 'the built invoice is returned: %s' % cutstr(show(r)))
