"""decimal amounts and allocations"""
from rules import *

RULE = '''Every place in the workspace that builds a decimal amount (found in MIR) is examined: its fraction must be the
remainder by the precision's multiplier, or be guarded on every path by fraction < 10^decimals; its integer part must be
the matching quotient or the caller's value. Conversion back multiplies by ten to the decimals and adds the fraction with
checked operations only. The allocation writer and parser are compared part by part.'''
FLOOR = 6
POW = ['u64::pow(10, discr(%s) as u8 as u32)', 'Precision::multiplier(%s)', 'u64::pow(10, conv:u32(%s))',
       'u64::pow(10, Precision::decimals(%s) as u32)', 'u64::pow(10, conv:u32(Precision::decimals(%s)))']


def check(ck):
    p = ck.p
    ca = p.adt('CoinAmount')
    builders = p.aggs_of(ca)
    ck.count('constructors', len(builders))
    ck.ob('CoinAmount', len(builders) >= 2, 'constructors are found: %s' % [f.path for f in builders])
    for f in builders:
        if f.derived:
            continue
        S = 'CoinAmount built in ' + p.short(f)
        g = ck.graph(G(p, f, stop=['Precision::multiplier', 'Precision::decimals', 'path:*FromStr*',
                                   'path:*TryFrom<u8> for amount::Precision*', 'path:*TryFrom<u8>*']))
        k = 0
        for e in g.events(kind='agg', pred=lambda e: e.name == ca):
            k += 1
            t = e.args[0]
            fr, pr, it = show(field(t, 'fract')), show(field(t, 'precision')), show(field(t, 'int'))
            pows = [q % pr for q in POW]
            if any(fr.endswith(' Rem %s)' % q) for q in pows):
                num = fr[1:].rsplit(' Rem ', 1)[0]
                ck.ob(S, any({show(x) for x in alts(field(t, 'int'))} <= {'(%s Div %s)' % (num, q), '0'} for q in pows) and
                      ' Div ' in it, 'the integer part is the quotient of the same division: %s' % it, loc=e.loc)
                ck.ob(S, True, 'the fraction is a remainder')
                continue
            lits = [y for q in pows for y in ('(%s < %s)' % (fr, q), '!(%s <= %s)' % (q, fr))]
            q_ = e

            w = g.only_if(lambda x: x is q_, lits)
            ck.hold(S, w, 'the fraction %s is below 10^decimals' % cutstr(fr, 90), loc=e.loc)
        ck.ob(S, k, 'the constructor is reached')
    g = ck.graph(G(p, p.find('to_amount_unchecked', 'CoinAmount'), ['Precision::multiplier', 'Precision::decimals']))
    pows = [q % '$0.precision' for q in POW]
    okv = []
    for q in pows:
        for a in ('$0.int, ' + q, q + ', $0.int'):
            okv += ['Amount(u64::checked_add(u64::checked_mul(%s)@Some, $0.fract)@Some)' % a,
                    'Amount(u64::checked_add($0.fract, u64::checked_mul(%s)@Some)@Some)' % a]
    for n, r in g.rets():
        ck.ob('CoinAmount::to_amount_unchecked', m(r, okv), 'the value is int * 10^decimals + fract: %s' % cutstr(show(r)))
    S = 'Allocation text'
    g = ck.graph(G(p, p.find('from_str', 'Allocation', 'FromStr'), ['path:*FromStr*']))
    sp = ['str::split_once($0, 64)', "str::split_once($0, '@')"]
    for n, r in g.rets():
        for x in okval(r):
            ck.ob(S, any(show(field(x, '0')) == 'parse:TokenIndex(%s@Some.1)@Ok' % s and
                         show(field(x, '1')) == 'parse:OwnedFraction(%s@Some.0)@Ok' % s for s in sp),
                  'the fraction precedes and the token index follows "@": %s' % show(x))
    ck.ob(S, any(okval(r) for _, r in g.rets()), 'an allocation can be parsed')
    ck.hold(S, g.must(lits=[s + ' is Some' for s in sp]), 'a text without "@" is rejected')
    tx = texts(ck.graph(G(p, p.find('fmt', 'Allocation', 'Display'), ['*::fmt'])))
    ck.ob(S, set(tx) == {'<$0.1>@<$0.0>'}, 'written as fraction@index: %s' % sorted(tx))
    S = 'NonFungible text'
    g = ck.graph(G(p, p.find('from_str', 'NonFungible', 'FromStr'), ['path:*FromStr for *Allocation*', 'path:*Allocation as*']))
    for n, r in g.rets():
        for x in okval(r):
            ck.ob(S, show(x) == 'NonFungible::RGB21(parse:Allocation($0)@Ok)', 'parsed as an allocation: %s' % show(x))
