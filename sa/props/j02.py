"""beneficiary codec"""
from rules import *

RULE = '''The 34-byte payload of a witness-output beneficiary is read from MIR once per address type: byte 0 is the
closing method, byte 1 a type code, the rest the address bytes. The decoder is read per type code. Obligations: the
code tables are inverse and injective, unknown codes and methods are rejected, the decoder rebuilds the address from
exactly the bytes the encoder wrote. The text form of a beneficiary is the network text, ":" and the seal or payload;
the parser yields each kind only from the part after the first ":" and keeps the parsed network.'''
FLOOR = 42
LEN = {'Pkh': 20, 'Sh': 20, 'Wpkh': 20, 'Wsh': 32, 'Tr': 32}


def check(ck):
    p = ck.p
    ap = [k for k in p.adts if k.endswith('::AddressPayload')]
    if len(ap) != 1:
        raise AnchorError('AddressPayload')
    ap = ap[0]
    pv = p.adt('Pay2Vout')
    me = mk('param', 0, 'p0')
    enc = p.find('to_baid64_payload', 'Pay2Vout')
    codes = {}
    for v, t in variant_terms(p, ap, field(me, 'address')):
        ck.ob('Pay2Vout encoder', v in LEN, 'address type %s is known' % v)
        g = ck.graph(G(p, enc, argterms=[agg(pv, '', [('method', field(me, 'method')), ('address', t)])]))
        for n, r in g.rets():
            for x in alts(r):
                ents = dict(x.a[1]) if x.op == 'with' else {}
                b0, b1, rest = None, None, None
                for path, val in ents.items():
                    s = showpath(path)
                    if s == '[0]':
                        b0 = val
                    elif s == '[1]':
                        b1 = val
                    elif s.startswith(('[RangeFrom{start: 2}', '[Range{start: 2,', '[RangeInclusive')):
                        rest = val
                ck.ob('Pay2Vout encoder', x.op == 'with' and show(x.a[0]) == "repeat(0, '34')",
                      'the payload of %s starts from zeroes' % v)
                ck.ob('Pay2Vout encoder', b0 is not None and m(b0, ['discr($0.method) as u8', 'conv:u8($0.method)',
                                                                    'Method::to_u8($0.method)']),
                      'byte 0 of %s is the closing method: %s' % (v, b0 and show(b0)))
                ck.ob('Pay2Vout encoder', b1 is not None and b1.op == 'int', 'byte 1 of %s is a type code' % v)
                ck.ob('Pay2Vout encoder', rest is not None and show(bytes_of(rest)) == '$0.address@' + v,
                      'bytes from 2 on are the address bytes of %s: %s' % (v, rest and show(rest)))
                if b1 is not None and b1.op == 'int':
                    codes.setdefault(v, set()).add(b1.a[0])
    for v in LEN:
        ck.ob('Pay2Vout encoder', len(codes.get(v, ())) == 1, 'one type code for %s: %s' % (v, codes.get(v)))
    allc = [c for s in codes.values() for c in s]
    ck.ob('Pay2Vout encoder', len(allc) == len(set(allc)), 'type codes are distinct')
    g = ck.graph(G(p, p.find('try_from', 'Pay2Vout', 'TryFrom')))
    got = set()
    for n, r in g.rets():
        for x in okval(r):
            ck.ob('Pay2Vout decoder', m(field(x, 'method'), 'tryconv:Method($0[0])@Ok'),
                  'the closing method is decoded from byte 0: %s' % show(field(x, 'method')))
            for a in alts(field(x, 'address')):
                v = a.a[1] if a.op == 'agg' else None
                got.add(v)
                rng = {20: ('Range{start: 2, end: 22}', 'RangeInclusive::new(2, 21)'),
                       32: ('RangeFrom{start: 2}', 'Range{start: 2, end: 34}', 'RangeInclusive::new(2, 33)')
                       }.get(LEN.get(v), ())
                src = a
                while src.op in ('agg', 'pay', 'call') and not (src.op == 'call' and src.a[0] == 'slice'):
                    if src.op == 'agg':
                        src = src.a[2][0][1]
                    elif src.op == 'pay':
                        src = src.a[0]
                    else:
                        src = src.a[1]
                ck.ob('Pay2Vout decoder', src.op == 'call' and show(src.a[1]) == '$0' and show(src.a[2]) in rng,
                      '%s is decoded from its %s bytes at offset 2: %s' % (v, LEN.get(v), show(src)))
                for c in codes.get(v, ()):
                    lits = ['($0[1] == %d)' % c]
                    w = g.reach([g.a.entry], lambda k, e: e is None and k is n, None, lambda l: lm(l, lits))
                    ck.ob('Pay2Vout decoder', w is None, '%s is decoded only under type code %d' % (v, c),
                          w and g.describe(w))
    for v in LEN:
        ck.ob('Pay2Vout decoder', v in got, '%s can be decoded' % v)
    ck.hold('Pay2Vout decoder', g.must(lits=['tryconv:Method($0[0]) is Ok']), 'an unknown method byte is rejected')
    # text form
    x = p.adt('XChainNet')
    ben = p.adt('Beneficiary')
    fmt = p.find('fmt', 'XChainNet', 'Display')
    par = ck.graph(G(p, p.find('from_str', 'XChainNet', 'FromStr'), stop=['path:*Pay2Vout*::from_str']))
    body = {'BlindedSeal': ['parse:SecretSeal(str::split_once($0, %s)@Some.1)@Ok'],
            'WitnessVout': ['parse:Pay2Vout(str::split_once($0, %s)@Some.1)@Ok',
                            'FromBaid64Str::from_baid64_str(str::split_once($0, %s)@Some.1)@Ok']}
    sep = ['58', "':'"]
    nets = set()
    for n, r in par.rets():
        for v in okval(r):
            for b in alts(field(v, '0')):
                k = b.a[1] if b.op == 'agg' else None
                nets.add((v.a[1], k))
                ck.ob('FromStr for beneficiary', k in body and m(field(b, '0'), [q % s for q in body[k] for s in sep]),
                      '%s is parsed from the text after the first colon: %s' % (k, show(b)))
                if k == 'WitnessVout':
                    w = par.reach([par.a.entry], lambda z, e: e is None and z is n, None,
                                  lambda l: lm(l, ['parse:SecretSeal(*) is Err']))
                    ck.ob('FromStr for beneficiary', w is None, 'a text that is a seal is never taken as an output',
                          w and par.describe(w))
    ck.hold('FromStr for beneficiary', par.must(lits=['str::split_once($0, %s) is Some' % s for s in sep]),
            'a text without a network separator is rejected')
    for net in p.adts[x]['variants']:
        for v, t in variant_terms(p, ben, pay(me, net['name'], '0')):
            ck.ob('FromStr for beneficiary', (net['name'], v) in nets, '%s on %s can be parsed' % (v, net['name']))
            g = ck.graph(G(p, fmt, argterms=[agg(x, net['name'], [('0', t)])], stop=['*Pay2Vout*::fmt', '*::fmt']))
            tx = texts(g)
            pl = '$0@%s@%s' % (net['name'], v)
            want = '<ChainNet::%s>:<%s>' % (net['name'], pl)
            alt = '<to_string(ChainNet::%s)>:<%s>' % (net['name'], pl)
            ck.ob('Display for beneficiary', set(tx) <= {want, alt} and len(tx) == 1,
                  '%s on %s is written as network, colon, payload: %s' % (v, net['name'], sorted(tx)))
