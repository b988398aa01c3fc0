"""transport codec"""
from rules import *

RULE = '''Text written per transport kind and TLS flag, read from MIR by specialising the writer; parse table read as
(condition, result) pairs with the comparisons of the scheme decided for each known scheme and for an unknown one. Obligations: every host-bearing kind is written as "<scheme>://<host>" with a scheme unique
to (kind, tls); the parser yields (kind, tls, host) exactly for that scheme and takes the host as everything after the
first "://"; unknown schemes, a missing separator and an empty host are errors.'''
FLOOR = 32
SP = "str::split_once($0, '://')"


def check(ck):
    p = ck.p
    adt = p.adt('RgbTransport')
    me = mk('param', 0, 'p0')
    fmt = p.find('fmt', 'RgbTransport', 'Display')
    scheme = {}
    for v in p.adts[adt]['variants']:
        fs = [f[0] for f in v['fields']]
        for tls in ((True, False) if 'tls' in fs else (None,)):
            t = agg(adt, v['name'], [(f, cbool(tls) if f == 'tls' else pay(me, v['name'], f)) for f in fs])
            g = ck.graph(G(p, fmt, argterms=[t]))
            tx = texts(g)
            ck.ob('Display for RgbTransport', len(tx) == 1, '%s tls=%s is written in one way: %s' % (
                v['name'], tls, sorted(tx)))
            for s in tx:
                if v['name'] == 'UnspecifiedMeans':
                    ck.ob('Display for RgbTransport', s == '', 'unspecified means is written as nothing')
                    continue
                a, sep, host = s.partition('://')
                ck.ob('Display for RgbTransport', sep and a and '<' not in a,
                      '%s tls=%s is written with a literal scheme: %r' % (v['name'], tls, s))
                if 'host' in fs:
                    ck.ob('Display for RgbTransport', host == '<$0@%s.host>' % v['name'],
                          'the host of %s is written after the separator: %r' % (v['name'], s))
                else:
                    ck.ob('Display for RgbTransport', host and '<' not in host,
                          '%s is written with a non-empty placeholder host' % v['name'])
                ck.ob('Display for RgbTransport', a not in scheme, 'scheme %r is unique' % a)
                scheme[a] = (v['name'], tls)
    g = ck.graph(G(p, p.find('from_str', 'RgbTransport', 'FromStr')))
    S = 'FromStr for RgbTransport'

    def decided(t, a):
        """truth of a comparison of the scheme with a literal, when the scheme is `a`"""
        if t.op == 'bool':
            return t.a[0]
        if t.op == 'not':
            v = decided(t.a[0], a)
            return None if v is None else not v
        if t.op == 'eq':
            x = show(t)
            for pre, post in (('(', ' == %s@Some.0)' % SP), ('(%s@Some.0 == ' % SP, ')')):
                if x.startswith(pre) and x.endswith(post) and x[len(pre):-len(post)][:1] == "'":
                    return x[len(pre) + 1:-len(post) - 1] == a
        return None

    def under(a):
        def cut(l):
            if l[0] != 'b':
                return False
            v = decided(l[1], a)
            return v is not None and v != bool(l[2])
        return cut
    found = ["%s is None" % SP, "('' == %s@Some.1)" % SP, "(0 == len(%s@Some.1))" % SP]
    for a, key in list(scheme.items()) + [(None, None)]:
        cut = under(a)
        oks = 0
        for n, r in g.rets():
            if g.reach([g.a.entry], lambda k, e: e is None and k is n, None, cut) is None:
                continue
            for x in okval(r):
                oks += 1
                if key is None:
                    ck.ob(S, False, 'an unknown scheme is an error, not %s' % show(x))
                    continue
                ck.ob(S, x.op == 'agg' and x.a[1] == key[0], 'scheme %r parses as %s: %s' % (a, key[0], cutstr(show(x), 200)))
                if x.op != 'agg' or x.a[1] != key[0]:
                    continue
                fs = dict(x.a[2])
                if 'tls' in fs:
                    ck.ob(S, {decided(y, a) for y in alts(fs['tls'])} == {key[1]}, 'scheme %r parses with tls=%s: %s'
                          % (a, key[1], show(fs['tls'])))
                if 'host' in fs:
                    ck.ob(S, m(fs['host'], ['to_string(%s@Some.1)' % SP, '%s@Some.1' % SP]),
                          'the host of %s is the text after the separator: %s' % (x.a[1], show(fs['host'])))
        if key is None:
            ck.ob(S, oks == 0, 'an unknown scheme is an error')
            continue
        ck.ob(S, oks > 0, 'scheme %r is accepted' % a)
        err = {z.id for z, rr in g.rets() if not okval(rr)}
        w = g.reach([g.a.entry], lambda k, e: e is None and k.id in err, None, lambda l: cut(l) or lm(l, found))
        ck.ob(S, w is None, 'scheme %r with a host is always accepted' % a, w and g.describe(w))
    ck.hold('FromStr for RgbTransport', g.must(lits=[SP + ' is Some']), 'a missing separator is an error')
    ck.hold('FromStr for RgbTransport', g.must(lits=["!('' == %s@Some.1)" % SP, "!(0 == len(%s@Some.1))" % SP]),
            'an empty host is an error')
    ck.ob('FromStr for RgbTransport', not nopanic(g), 'parsing does not panic: %s' % nopanic(g))
