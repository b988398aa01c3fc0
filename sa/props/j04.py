"""invoice text"""
from rules import *

RULE = '''Writer: product of the control-flow graph of the invoice writer with an automaton collecting the text written
up to "?" and the branch facts taken; the text must be the one the facts demand (contract or "rgb:~", interface or "~",
amount "+" only if non-empty, beneficiary, "?" iff parameters exist). Parameters: expiry, endpoints and every unknown
query entry are put in the map, and the map is printed completely as percent-encoded key=value pairs with "&" between
them. Parser: product with an automaton counting path segments; each field of an accepted invoice must come from its own
segment or parameter, an omitted field only from the omission mark, and every malformed part leads to an error.'''
FLOOR = 60
W = 'Display for RgbInvoice'
R = 'FromStr for RgbInvoice'
URI = 'Uri::parse($0)@Ok'
SEG = 'each(Path::segments(Uri::path(%s)))' % URI
QS = ['EStr::split(Uri::query(%s)@Some, 38)' % URI, "EStr::split(Uri::query(%s)@Some, '&')" % URI]
KV = ["EStr::split_once(each(%s), %s)" % (q, s) for q in QS for s in ('61', "'='")]


def check(ck):
    p = ck.p
    writer(ck, p)
    parser(ck, p)
    state(ck, p)


TRACK = {'$0.contract': 'c', '$0.iface': 'i', '$0.operation': 'o', '$0.assignment': 'a', '$0.expiry': 'e'}
NOAMT = ["('' == to_string($0.owned_state))", '(0 == len(to_string($0.owned_state)))']
NOTR = '($0.transports == [RgbTransport::UnspecifiedMeans])'
NOUNK = '(0 == len($0.unknown_query))'


KEYS = {"'endpoints'": "slice::join(*", "'expiry'": 'to_string($0.expiry@Some)', 'each($0.unknown_query).0': '*each($0.unknown_query).1'}


def params(src):
    return 'each($0.unknown_query' in src


def printed(ck, g, maps, prints):
    """the parameters are printed in one loop over all of them, separated by ampersands"""
    mine, both = [], []
    for e, em in prints:
        s = ''.join(x[1] if x[0] == 'lit' else '\0' for x in em)
        a = [x[2] for x in em if x[0] == 'arg']
        if len(a) == 3 and s == '\0\0=\0' and {show(x) for x in alts(a[0])} == {"''", "'&'"}:
            both.append(e)
            a, s = a[1:], s[1:]
        ok = len(a) == 2 and all(x.op == 'call' and x.a[0].endswith('utf8_percent_encode') for x in a) and s in (
            '\0=\0', '&\0=\0')
        if ok:
            k, v = [alts(x.a[1]) for x in a]
            ok = len(k) == len(v) and all(show(x) in KEYS for x in k) and all(
                any(m(y, KEYS[show(x)]) for y in v) for x in k)
        ck.ob(W, ok, 'a parameter is printed as encoded key "=" encoded value: %r' % s, loc=e.loc)
        mine.append(e)
    ismine = lambda e: any(e is x for x in mine)

    def amp(e):
        em = emitted(e)
        return bool(em) and em[0][0] == 'lit' and em[0][1] == '&' or any(e is x for x in both)
    pos = ['position(%s)' % x for x in maps]
    later = ['(0 < %s)' % x for x in pos] + ['!(0 == %s)' % x for x in pos] + ['!(%s == 0)' % x for x in pos] + [
        '!(%s < 1)' % x for x in pos]
    first = [x[1:] if x[0] == '!' else '!' + x for x in later]
    w = g.reach([g.a.entry], lambda n, e: e is not None and amp(e) and not any(e is x for x in both),
                lambda e: ismine(e) and not amp(e), lambda l: lm(l, later))
    ck.ob(W, w is None, 'the first parameter is printed without "&"', w and g.describe(w))
    for e in mine:
        if amp(e):
            continue
        starts = [t for t, ls in e.node.succ]
        w = g.reach(starts, lambda n, x: x is not None and ismine(x) and not amp(x), amp, lambda l: lm(l, first))
        ck.ob(W, w is None, '"&" precedes every parameter but the first', w and g.describe(w))
    for x in sorted(maps):
        ck.hold(W, g.foreach(x, ismine, complete=False), 'every parameter is printed')


def writer(ck, p):
    g = ck.graph(G(p, p.find('fmt', 'RgbInvoice', 'Display'), stop=['*::fmt'], caps=(200, 400)))

    def on_edge(s, l):
        txt, fl = s
        x = lit(l)
        k = l[0]
        if k == 'some' and params(show(l[1])):
            return txt, fl | {'loop'}
        if k == 'is' and show(l[1]) in TRACK:
            f = TRACK[show(l[1])] + ('+' if l[2] == 'Some' else '-')
        elif k == 'b' and show(l[1]) in NOAMT:
            f = 'm-' if l[2] else 'm+'
        elif x == NOTR or x == '!' + NOTR:
            f = 't-' if l[2] else 't+'
        elif x == NOUNK or x == '!' + NOUNK:
            f = 'u-' if l[2] else 'u+'
        else:
            return s
        inv = f[0] + ('-' if f[1] == '+' else '+')
        if inv in fl:
            return None
        return txt, fl | {f}

    def on_event(s, e):
        txt, fl = s
        em = emitted(e)
        if not em or '?' in txt or 'loop' in fl or any(x[0] == 'arg' and 'percent_encode' in show(x[2]) for x in em):
            return s
        return txt + ''.join(piece(x) for x in em), fl
    n = 0
    bad = {}
    oks = {x.id for x in g.okrets()}
    for node, (txt, fl) in walk(g, ('', frozenset()), on_event, on_edge):
        if node.id not in oks:
            continue
        n += 1

        def alt(x):
            a, b = "str::replace(%s, 45, '')" % x, x
            return '(?:%s)' % '|'.join(re.escape(y) for y in (
                '<{%s | %s}>' % (a, b), '<{%s | %s}>' % (b, a), '<%s>' % a, '<%s>' % b,
                '<%s>' % b.replace('to_string(', '')[:-1]))
        exp = alt('to_string($0.contract@Some)') + '/' if 'c+' in fl else 'rgb:~/' if 'c-' in fl else 'CONTRACT'
        exp += re.escape('<$0.iface@Some>/') if 'i+' in fl else '~/' if 'i-' in fl else 'IFACE'
        oa = ''
        if 'o+' in fl:
            oa += re.escape('<$0.operation@Some>/')
        if 'a+' in fl:
            oa += re.escape('<$0.assignment@Some>/')
        exp += '(?:%s)' % oa
        exp += re.escape('<to_string($0.owned_state)>+') if 'm+' in fl else '' if 'm-' in fl else 'AMOUNT'
        exp += alt('to_string($0.beneficiary)')
        q = any(x in fl for x in ('e+', 't+', 'u+'))
        exp += r'\?' if q else ''
        if not re.fullmatch(exp, txt) or not {'e+', 't+', 'u+'} & fl and not {'e-', 't-', 'u-'} <= fl:
            bad.setdefault(txt, fl)
    ck.count('text_shapes', n)
    ck.ob(W, n >= 16, 'the writer distinguishes the optional parts (%d shapes)' % n)
    ck.ob(W, not bad, 'the text before "?" is contract/interface/[amount+]beneficiary for every combination of optional '
          'parts', ['%s  under %s' % (t, ' '.join(sorted(f))) for t, f in list(bad.items())[:6]])
    # parameters
    ck.hold(W, g.after(['$0.expiry is Some'], E('add', None, "('expiry', to_string($0.expiry@Some))")),
            'an expiry is put in the parameters')
    ck.hold(W, g.only_if(E('add', None, "('expiry', *"), ['$0.expiry is Some']), 'only a present expiry is written')
    jn = ["('endpoints', slice::join(*+<add(to_string(each($0.transports)))>, %s))" % s
          for s in ('to_string(44)', "','", "to_string(',')")]
    ck.hold(W, g.after(['end $0.transports'], E('add', None, jn)), 'all endpoints are put in the parameters, comma-separated')
    ck.hold(W, g.after(['!' + NOTR], None, unless=['end $0.transports', NOTR]), 'endpoints are collected whenever they are set')
    ck.hold(W, g.foreach('$0.transports', E('add', None, 'to_string(each($0.transports))'), complete=False),
            'every endpoint is written')
    ck.hold(W, g.foreach('$0.unknown_query', E('add', None, ['each($0.unknown_query)', '(each($0.unknown_query).0, *.1)']),
                         complete=False), 'every unknown parameter is written')
    ck.hold(W, g.must(lits=['end $0.unknown_query']), 'unknown parameters are always considered')
    # printing of the parameter map
    prints = []
    for e in g.events():
        em = emitted(e)
        if em and any(x[0] == 'arg' and 'utf8_percent_encode' in show(x[2]) for x in em):
            prints.append((e, em))
    ck.ob(W, len(prints) > 0, 'parameters are printed percent-encoded')
    firsts = rests = 0
    whole = {show(l[1]) for _, _, ls in g.edges(lambda l: l[0] == 'some' and params(show(l[1]))) for l in ls
             if l[0] == 'some' and show(l[1]).startswith('empty')}
    if whole:
        printed(ck, g, whole, prints)
        prints, firsts, rests = [], 1, 1
    for e, em in prints:
        s = ''.join(x[1] if x[0] == 'lit' else '\0' for x in em)
        a = [x[2] for x in em if x[0] == 'arg']
        ok = len(a) == 2 and all(x.op == 'call' and x.a[0].endswith('utf8_percent_encode') for x in a)
        k, v = (show(a[0].a[1]), show(a[1].a[1])) if ok else ('', '')
        ok = ok and k.endswith('.0') and v.endswith('.1') and k[:-2] == v[:-2] and s in ('\0=\0', '&\0=\0')
        ck.ob(W, ok, 'a parameter is printed as encoded key "=" encoded value: %r' % s, loc=e.loc)
        src = k[5:-3]
        if s.startswith('&'):
            rests += 1
            ck.ob(W, src.startswith('Iterator::skip(') and src.endswith(', 1)'),
                  '"&" precedes every parameter but the first: %s' % cutstr(src, 100), loc=e.loc)
            ck.hold(W, g.foreach(src, lambda x: x is e or emitted(x) is not None, complete=False),
                    'every further parameter is printed')
        else:
            firsts += 1
            ck.ob(W, src.startswith('Iterator::take(') and src.endswith(', 1)'),
                  'the first parameter is printed without "&"', loc=e.loc)
    ck.ob(W, firsts and rests, 'both the first and the further parameters are printed')
    # operation and assignment
    po = {v.a[1] for _, r in _parse(ck, p).rets() for x in okval(r) for f in ('operation', 'assignment')
          for v in alts(field(x, f)) if v.op == 'agg'}
    for f in ('operation', 'assignment'):
        w = [e for e in g.events() if emitted(e) and any(x[0] == 'arg' and show(x[2]) == '$0.%s@Some' % f
                                                         for x in emitted(e))]
        ck.ob(W + ': named ' + f, not w or 'Some' in po, 'a written %s name is read back' % f)


_pg = {}


def _parse(ck, p):
    if id(p) not in _pg:
        _pg.clear()
        _pg[id(p)] = ck.graph(G(p, p.find('from_str', 'RgbInvoice', 'FromStr'), stop=[
            'path:*FromStr for invoice::XChainNet*', 'path:*InvoiceState as*', 'path:*RgbTransport*'], caps=(200, 400)))
    return _pg[id(p)]


def parser(ck, p):
    g = _parse(ck, p)
    nx = 'next Path::segments(Uri::path(%s))' % URI
    FACT = {
        'parse:ContractId(%s) is Ok' % SEG: (1, 'cid'),
        "('~' == %s)" % SEG: (0, 'omit'),
        'tryconv:TypeName(to_string(%s)) is Ok' % SEG: (2, 'iface'),
        'tryconv:TypeName(%s) is Ok' % SEG: (2, 'iface'),
        'parse:TypeName(%s) is Ok' % SEG: (2, 'iface'),
        'parse:XChainNet(%s) is Ok' % SEG: (3, 'ben'),
        'parse:XChainNet(str::split_once(%s, 43)@Some.1) is Ok' % SEG: (3, 'ben+'),
        'parse:InvoiceState(str::split_once(%s, 43)@Some.0) is Ok' % SEG: (3, 'st'),
        'str::split_once(%s, 43) is None' % SEG: (3, 'nosep'),
        "!Path::is_absolute(Uri::path(%s))" % URI: (0, 'rel'),
        'Uri::authority(%s) is None' % URI: (0, 'noauth'),
        "('rgb' == Scheme::as_str(Uri::scheme(%s)@Some))" % URI: (0, 'rgb'),
    }

    def on_edge(s, l):
        n, fl = s
        x = lit(l)
        if x == nx:
            return n + 1, fl
        f = FACT.get(x)
        if f:
            fl = fl | {'%s@%d' % (f[1], n)}
        for y in ("is Some", "is None"):
            for key in ('expiry', 'endpoints'):
                if x.startswith('get(') and x.endswith("'%s') %s" % (key, y)):
                    fl = fl | {key + y[-4:]}
        if x in ['end ' + q for q in QS] or x == 'Uri::query(%s) is None' % URI:
            fl = fl | {'query'}
        return n, fl
    shapes = 0
    for node, (n, fl) in walk(g, (0, frozenset()), None, on_edge):
        for v in okval(node.ret):
            shapes += 1
            F = {f: show(field(v, f)) for f in ('contract', 'iface', 'beneficiary', 'owned_state', 'expiry', 'transports',
                                                'unknown_query', 'operation', 'assignment')}
            ok = 'rgb@0' in fl and 'rel@0' in fl and 'noauth@0' in fl
            ck.ob(R, ok, 'only "rgb:" texts without authority are accepted: %s' % sorted(fl))
            ck.ob(R, n == 3, 'three path segments are read (%d)' % n)
            ck.ob(R, 'query' in fl, 'all query parameters are read')
            c = F['contract']
            ck.ob(R, c == 'Option::Some(parse:ContractId(%s)@Ok)' % SEG and 'cid@1' in fl or
                  c == 'Option::None' and 'omit@1' in fl, 'the contract is the first segment, or omitted: %s %s' % (c, sorted(fl)))
            i = F['iface']
            ck.ob(R, i.startswith('Option::Some(') and 'TypeName' in i and SEG in i and 'iface@2' in fl or
                  i == 'Option::None' and 'omit@2' in fl, 'the interface is the second segment, or omitted: %s %s' % (i, sorted(fl)))
            ck.ob(R, c == 'Option::None' or i != 'Option::None', 'a contract comes with an interface')
            b, s = F['beneficiary'], F['owned_state']
            ck.ob(R, b == 'parse:XChainNet(%s)@Ok' % SEG and 'ben@3' in fl and 'nosep@3' in fl and s == 'InvoiceState::Void' or
                  b == 'parse:XChainNet(str::split_once(%s, 43)@Some.1)@Ok' % SEG and 'ben+@3' in fl and 'st@3' in fl and
                  s == 'parse:InvoiceState(str::split_once(%s, 43)@Some.0)@Ok' % SEG,
                  'state and beneficiary are the third segment around "+": %s %s' % (b, s))
            e = F['expiry']
            ck.ob(R, e == 'Option::None' and 'expiryNone' in fl or 'expirySome' in fl and m(
                field(v, 'expiry'), "Option::Some(parse:i64(get(*, 'expiry')@Some)@Ok)"),
                'the expiry is the parameter of that name: %s' % cutstr(e))
            t = F['transports']
            ck.ob(R, t == '[RgbTransport::UnspecifiedMeans]' and 'endpointsNone' in fl or 'endpointsSome' in fl and m(
                field(v, 'transports'), "empty<>+<add(parse:RgbTransport(*str::split(get(*, 'endpoints')@Some, 44*)@Ok)>"),
                'the endpoints are the comma-separated parameter of that name: %s' % cutstr(t))
            u = F['unknown_query']
            ck.ob(R, "remove('endpoints')" in u and "remove('expiry')" in u, 'known parameters are not kept as unknown')
    ck.count('accepting_shapes', shapes)
    ck.ob(R, shapes >= 8, 'accepting paths are found (%d)' % shapes)
    kv = KV
    ck.hold(R, g.foreach(QS, E('add', None, ['(to_string(Decode::into_string(EStr::decode(%s@Some.0))@Ok), '
                                             'to_string(Decode::into_string(EStr::decode(%s@Some.1))@Ok))' % (x, x) for x in kv]
                               + ['(Decode::into_string(EStr::decode(%s@Some.0))@Ok, '
                                  'Decode::into_string(EStr::decode(%s@Some.1))@Ok)' % (x, x) for x in kv]),
                         complete=False), 'every query parameter is decoded and kept, or the text is rejected')
    st = [x for x in g.edges(['next *str::split(get(*, \'endpoints\')*'])]
    ck.ob(R, bool(st), 'endpoints are iterated')
    ck.hold(R, g.after(["next *str::split(get(*, 'endpoints')*"], E('add', None, 'parse:RgbTransport(*)@Ok')),
            'every endpoint is kept, or the text is rejected')
    ck.ob(R, not nopanic(g) or all('unreachable' in x or 'panic' in x for x in nopanic(g)), 'parsing does not panic')


def state(ck, p):
    adt = p.adt('InvoiceState')
    S = 'FromStr for InvoiceState'
    g = ck.graph(G(p, p.find('from_str', 'InvoiceState', 'FromStr'), stop=['path:*FromStr*']))
    ORD = {'Void': (["($0 == '')", "('' == $0)", '(0 == len($0))'], None),
           'Amount': (['parse:Amount($0) is Ok'], 'parse:Amount($0)@Ok'),
           'Data': (['parse:NonFungible($0) is Ok'], 'parse:NonFungible($0)@Ok'),
           'Attach': (['parse:AttachId($0) is Ok'], 'parse:AttachId($0)@Ok')}
    got = set()
    for n, r in g.rets():
        for x in okval(r):
            v = x.a[1]
            got.add(v)
            ck.ob(S, v in ORD and (ORD[v][1] is None or show(field(x, '0')) == ORD[v][1]),
                  '%s carries the parsed value: %s' % (v, show(x)))
            ck.hold(S, g.ret_only_if('Result::Ok(InvoiceState::%s*' % v, ORD[v][0]), '%s only from its own text' % v)
    ck.ob(S, got == {v['name'] for v in p.adts[adt]['variants']}, 'every state kind can be parsed')
    ck.hold(S, g.ret_only_if('Result::Ok(InvoiceState::Data*', ['parse:Amount($0) is Err']), 'amounts take precedence')
    fm = p.find('fmt', 'InvoiceState', 'Display')
    for v, t in variant_terms(p, adt):
        tx = texts(ck.graph(G(p, fm, argterms=[t], stop=['*::fmt'])))
        want = {'Void': {''}}.get(v, {'<$0@%s>' % v})
        ck.ob('Display for InvoiceState', set(tx) == want, '%s is written as %s: %s' % (v, want, sorted(tx)))
