"""network codec tables"""
from rules import *

RULE = '''The decision tables of the network type are read from MIR by specialising each function on every variant:
display literal, parse result for that literal, base layer, production flag, address network, wrapping and
unwrapping of a payload. Obligations: parse(display(n)) = n for every n, no literal is shared, layer/production/
address tables equal the reference, wrapping with network n yields a value whose network is n and whose payload
is the given one.'''
FLOOR = 40

REF = {
    'BitcoinMainnet': ('Bitcoin', True, 'Mainnet'),
    'BitcoinTestnet': ('Bitcoin', False, 'Testnet'),
    'BitcoinSignet': ('Bitcoin', False, 'Testnet'),
    'BitcoinRegtest': ('Bitcoin', False, 'Regtest'),
    'LiquidMainnet': ('Liquid', True, 'Mainnet'),
    'LiquidTestnet': ('Liquid', False, 'Testnet'),
}
NET = {'Mainnet': 'BitcoinMainnet', 'Testnet3': 'BitcoinTestnet', 'Testnet4': 'BitcoinTestnet',
       'Signet': 'BitcoinSignet', 'Regtest': 'BitcoinRegtest'}


def display_literals(ck, fn, adt):
    """variant -> set of complete texts written"""
    out = {}
    for name, t in variant_terms(ck.p, adt):
        g = ck.graph(G(ck.p, fn, argterms=[t]))
        lits = set()
        for e in g.events():
            em = emitted(e)
            if em is None:
                continue
            lits.add(''.join(x[1] if x[0] == 'lit' else '<%s>' % show(x[2]) for x in em))
        out[name] = lits
    return out


def check(ck):
    p = ck.p
    cn = p.adt('ChainNet')
    xcn = p.adt('XChainNet')
    vs = [v['name'] for v in p.adts[cn]['variants']]
    for v in vs:
        ck.ob('ChainNet::' + v, v in REF, 'network %s has a reference entry' % v)
    disp = display_literals(ck, p.find('fmt', 'ChainNet', 'Display'), cn)
    seen = {}
    for v, l in disp.items():
        ck.ob('Display for ChainNet', len(l) == 1, 'network %s is written as exactly one literal: %s' % (v, sorted(l)))
        for x in l:
            ck.ob('Display for ChainNet', x not in seen and x == x.lower() and x,
                  'literal %r of %s is unique and lower-case' % (x, v))
            seen[x] = v
    g = ck.graph(G(p, p.find('from_str', 'ChainNet', 'FromStr')))

    def recognises(l, v):
        """edge condition: the input equals the text of network v; returns the term whose text is compared"""
        if l[0] != 'b' or not l[2] or l[1].op != 'eq':
            return None
        a, b = l[1].a
        for x, y in ((a, b), (b, a)):
            if '$0' not in show(y):
                continue
            if x.op == 'str' and seen.get(x.a[0]) == v:
                return agg(cn, v, [])
            if x.op == 'call' and x.a[0] == 'to_string' and any(z is agg(cn, v, []) for z in alts(x.a[1])):
                return x.a[1]
        return None
    for v in vs:
        me = agg(cn, v, [])
        bad, w = set(), None
        for n, r in g.rets():
            for x in alts(r):
                if x.op == 'agg' and x.a[1] == 'Ok' and any(z is me for z in alts(field(x, '0'))):
                    t = field(x, '0')
                    w = w or g.reach([g.a.entry], lambda k, e: e is None and k is n, None,
                                     lambda l: recognises(l, v) is t)
        ck.ob('FromStr for ChainNet', w is None, 'network %s is parsed only from its own text' % v, w and g.describe(w))
        es = g.edges(lambda l: recognises(l, v) is not None)
        ck.ob('FromStr for ChainNet', bool(es), 'the text of %s is recognised' % v)
        ids = {n.id for n, r in g.rets() if not any(z is me for z in alts(pay(r, 'Ok', '0')))}
        w = g.reach([t for _, t, _ in es], lambda n, e: e is None and n.id in ids)
        ck.ob('FromStr for ChainNet', w is None, 'the text of network %s parses as that network' % v,
              w and g.describe(w))
    for name, fnname, col in (('base layer', 'layer1', 0), ('production flag', 'is_prod', 1),
                              ('address network', 'address_network', 2)):
        t = table(ck, p.find(fnname, 'ChainNet'), cn)
        for v in vs:
            r = REF.get(v, (None,) * 3)[col]
            r = {('true' if r else 'false') if isinstance(r, bool) else None} if isinstance(r, bool) else \
                {'Layer1::%s' % r, 'AddressNetwork::%s' % r}
            ck.ob('ChainNet::' + fnname, len(t[v]) == 1 and t[v] <= r, '%s of %s is %s' % (name, v, sorted(t[v])))
        t = table(ck, p.find(fnname, 'XChainNet'), xcn)
        for v in vs:
            r = REF.get(v, (None,) * 3)[col]
            r = {'true' if r else 'false'} if isinstance(r, bool) else {'Layer1::%s' % r, 'AddressNetwork::%s' % r}
            ck.ob('XChainNet::' + fnname, len(t[v]) == 1 and t[v] <= r, '%s of %s data is %s' % (name, v, sorted(t[v])))
    t = table(ck, p.find('with', 'XChainNet'), cn)
    for v in vs:
        ck.ob('XChainNet::with', t[v] == {'XChainNet::%s($1)' % v}, 'data wrapped for %s: %s' % (v, sorted(t[v])))
    t = table(ck, p.find('chain_network', 'XChainNet'), xcn)
    for v in vs:
        ck.ob('XChainNet::chain_network', t[v] == {'ChainNet::' + v}, 'network of %s data: %s' % (v, sorted(t[v])))
    t = table(ck, p.find('into_inner', 'XChainNet'), xcn)
    for v in vs:
        ck.ob('XChainNet::into_inner', t[v] == {'$0@' + v}, 'payload of %s data: %s' % (v, sorted(t[v])))
    nets = [k for k in p.adts if k.endswith('::Network') and
            {x['name'] for x in p.adts[k]['variants']} >= {'Testnet3', 'Regtest'}]
    if len(nets) == 1:
        t = table(ck, p.find('bitcoin', 'XChainNet'), nets[0])
        for v, l in t.items():
            ck.ob('XChainNet::bitcoin', l == {'XChainNet::%s($1)' % NET.get(v)}, 'data for network %s: %s' % (v, sorted(l)))
    else:
        raise AnchorError('bitcoin Network type not found')
