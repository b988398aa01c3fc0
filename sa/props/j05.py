"""amount arithmetic"""
from rules import *

RULE = '''Return values and stores of every checked_* and saturating_* operation on the two quantity types, read from MIR:
checked operations return nothing and store nothing exactly when the machine operation reports overflow, saturating ones
use the saturating machine operation with the same operands, sums fold with the saturating addition. The multiplier of
each precision is ten to the power of its decimals, conversions use that multiplier with checked or saturating
multiplication, and integer/fraction splits divide by that same multiplier.'''
FLOOR = 65


def check(ck):
    p = ck.p
    for ty in ('Amount', 'OwnedFraction'):
        for op in ('add', 'sub'):
            rhs = '$0.0, conv:%s($1).0' % ty
            cm = 'u64::checked_%s(%s)' % (op, rhs)
            sm = 'u64::saturating_%s(%s)' % (op, rhs)
            S = '%s::checked_%s' % (ty, op)
            g = ck.graph(G(p, p.find('checked_' + op, ty)))
            cases(ck, g, S, [('Option::Some(%s(%s@Some))' % (ty, cm), [[cm + ' is Some']]),
                             ('Option::None', [[cm + ' is None']])], 'checked ' + op)
            S = '%s::checked_%s_assign' % (ty, op)
            g = ck.graph(G(p, p.find('checked_%s_assign' % op, ty)))
            cases(ck, g, S, [('Option::Some(())', [[cm + ' is Some']]), ('Option::None', [[cm + ' is None']])],
                  'in-place checked ' + op)
            st = g.events(kind='store', pred=lambda e: show(e.args[0]) == '$0')
            val = ['%s(%s@Some)' % (ty, cm), cm + '@Some']
            ck.ob(S, st and all(m(e.args[1], val) for e in st), 'only the exact result is stored: %s' % [
                show(e.args[1]) for e in st])
            ck.hold(S, g.after([cm + ' is Some'], E(kind='store', pred=lambda e: e in st)), 'the result is stored')
            ck.hold(S, g.only_if(E(kind='store', pred=lambda e: e in st), [cm + ' is Some']),
                    'nothing is stored on overflow')
            S = '%s::saturating_%s' % (ty, op)
            g = ck.graph(G(p, p.find('saturating_' + op, ty)))
            cases(ck, g, S, [('%s(%s)' % (ty, sm), [])], 'saturating ' + op)
            S = '%s::saturating_%s_assign' % (ty, op)
            g = ck.graph(G(p, p.find('saturating_%s_assign' % op, ty)))
            st = g.events(kind='store', pred=lambda e: show(e.args[0]) == '$0')
            ck.ob(S, st and all(m(e.args[1], ['%s(%s)' % (ty, sm), sm]) for e in st), 'the saturated result is stored')
            ck.hold(S, g.must(E(kind='store', pred=lambda e: e in st)), 'the result is always stored')
    sums = [f for f in p.fns.values() if f.name == 'sum' and 'Amount' in (f.selfty or '')]
    ck.ob('Sum for Amount', len(sums) == 2, 'both sums of amounts are analysed (%d)' % len(sums))
    for f in sums:
        g = ck.graph(G(p, f))
        for n, r in g.rets():
            ops = {op.a[0] for op in subterms(r) if op.op == 'call' and op.a[0].startswith('u64::')}
            ar = [t for t in subterms(r) if t.op == 'bin']
            ck.ob('Sum for Amount', ops == {'u64::saturating_add'} and not ar, 'a sum saturates: %s' % cutstr(show(r)))
        ck.hold('Sum for Amount', g.must(lits=['end *']), 'every item is summed')
    pr = p.adt('Precision')
    mul = p.find('multiplier', 'Precision')
    dec = p.find('decimals', 'Precision')
    tm, td = table(ck, mul, pr), table(ck, dec, pr)
    for i, v in enumerate(p.adts[pr]['variants']):
        v = v['name']
        ck.ob('Precision::decimals', td[v] == {str(i)}, '%s has %d decimals: %s' % (v, i, td[v]))
        ck.ob('Precision::multiplier', tm[v] == {str(10 ** i)}, '%s multiplies by 10^%d: %s' % (v, i, tm[v]))
    st = ['Precision::multiplier']
    M = 'Precision::multiplier($0)'
    g = ck.graph(G(p, p.find('checked_convert', 'Precision'), st))
    c = ['u64::checked_mul(%s)' % x for x in ('conv:u64($1), ' + M, M + ', conv:u64($1)')]
    cases(ck, g, 'Precision::checked_convert', [
        (['Option::Some(Amount(%s@Some))' % x for x in c], [[x + ' is Some' for x in c]]),
        ('Option::None', [[x + ' is None' for x in c]])], 'checked conversion')
    g = ck.graph(G(p, p.find('saturating_convert', 'Precision'), st))
    cases(ck, g, 'Precision::saturating_convert', [
        (['Amount(%s)' % x.replace('checked', 'saturating') for x in c], [])], 'saturating conversion')
    MP = 'Precision::multiplier(conv:Precision($1))'
    q, r = '($0.0 Div %s)' % MP, '($0.0 Rem %s)' % MP
    Z = ['($0.0 == 0)', '(0 == $0.0)']
    z = '(?:%s|0)'
    g = ck.graph(G(p, p.find('floor', 'Amount'), st))
    ck.ob('Amount::floor', vals(g) <= {q, '0'} and q in vals(g), 'integer part is the quotient: %s' % vals(g))
    ck.hold('Amount::floor', ret_part(g, '0', Z), 'zero only of zero')
    g = ck.graph(G(p, p.find('rem', 'Amount'), st))
    ck.ob('Amount::rem', vals(g) == {r}, 'fraction is the remainder: %s' % vals(g))
    g = ck.graph(G(p, p.find('split', 'Amount'), st))
    for n, v in g.rets():
        for x in alts(v):
            ck.ob('Amount::split', {show(y) for y in alts(field(x, '0'))} <= {q, '0'} and show(field(x, '1')) == r,
                  'split is quotient and remainder: %s' % show(x))
    g = ck.graph(G(p, p.find('with_precision_checked', 'Amount'), ['Precision::checked_convert']))
    ck.ob('Amount::with_precision_checked', vals(g) in ({'Precision::checked_convert(conv:Precision($1), $0)'},
          {'Precision::checked_convert(conv:Precision($1), conv:u64($0))'}), 'checked conversion is used: %s' % vals(g))


def vals(g):
    return {show(y) for _, v in g.rets() for y in alts(v)}


def ret_part(g, s, lits):
    """where the constant s joins the result, a zero test was taken"""
    return (not g.edges(lits)) <= (s not in vals(g)), None
