"""texts and rounding of amounts"""
from rules import *

RULE = '''Writer and parser of plain amounts are compared in MIR: the bytes given to the encoder are the little-endian bytes of
the value up to and including the last one tested to be nonzero (one byte if there is none), the decoder uses the same
alphabet, refuses exactly more than eight bytes and copies the rest over zero bytes read as little-endian. For decimal
amounts every path of the writer writes the integer part, then, exactly if there is a fraction, a dot and the fraction
padded to the precision without trailing zeros, then the precision; the parser splits the text accordingly and its
fraction is the parsed number times ten to the number of missing digits, where refusals need a failed parse or too many
digits. Results of rounding are the quotient, or it plus one, under exactly the conditions on the remainder.'''
FLOOR = 55
LE = 'u64::to_le_bytes($0.0)'


def plain_text(ck):
    p, S = ck.p, 'Amount text'
    nz = ['!(0 == each(%s))' % LE, '!(each(%s) == 0)' % LE, '(0 < each(%s))' % LE]
    g = ck.graph(G(p, p.find('fmt', 'Amount', 'Display'), split=lambda l: lm(l, nz + ['end ' + LE])))
    enc = g.events(['Alphabet32Nopad::encode', 'Alphabet32Nopad::encode_*'])
    ck.ob(S, bool(enc), 'the bytes are encoded')
    alpha = {show(e.args[0]) for e in enc}
    kinds = set()
    last, first = ['RangeTo{end: (rposition(%s) Add 1)}' % LE, 'RangeToInclusive{end: rposition(%s)}' % LE], ['RangeTo{end: (0 Add 1)}', 'RangeTo{end: 1}', 'RangeToInclusive{end: 0}']
    for e in enc:
        for a in alts(e.args[1]):
            k = 'last' if m(a, ['slice(%s, %s)' % (LE, x) for x in last]) else 'first' if m(a, ['slice(%s, %s)' % (LE, x) for x in first]) else None
            ck.ob(S, k, 'the low bytes up to a nonzero one are encoded: %s' % cutstr(show(a)), loc=e.loc)
            kinds.add(k)
            if k:
                ck.hold(S, g.only_if(lambda x, e=e: x is e, nz if k == 'last' else ['end ' + LE]), 'the %s byte is taken for the end only so' % k, loc=e.loc)
    ck.ob(S, kinds == {'last', 'first'}, 'all values have a text: %s' % kinds)
    for n, t, ls in g.edges(nz):
        w = g.reach([t], lambda n, e: e is not None and e.kind == 'ret', lambda e: e in enc and m(e.args[1], ['slice(%s, %s)' % (LE, x) for x in last]))
        ck.ob(S, w is None, 'bytes up to the last nonzero one are encoded', w and g.describe(w))
    for e in g.events(kind='ret'):
        ck.ob(S, all(m(a, ['*write_str($1, Alphabet32Nopad::encode(*', '*pad($1, Alphabet32Nopad::encode(*', 'Result::Ok(*', 'Result::Err(*', '*fmt($1, *encode(*', '*fmt(*encode(*, $1)', '*write_fmt($1, *encode(*']) for a in alts(e.args[0])),
              'the encoded bytes are written: %s' % cutstr(show(e.args[0])))
    wr = g.events(['*write_str', '*write_fmt', '*pad', '*fmt'])
    ck.hold(S, g.must(lambda e: e in wr and 'encode(' in show(e.args[-1]) + show(e.args[0])), 'the encoded bytes are written')
    S = 'Amount parser'
    g = ck.graph(G(p, p.find('from_str', 'Amount', 'FromStr')))
    dec = g.events(['Alphabet32Nopad::decode_str', 'Alphabet32Nopad::decode'])
    ck.ob(S, bool(dec) and {show(e.args[0]) for e in dec} == alpha, 'the same alphabet is used')
    D = sorted({show(e.res) for e in dec})
    ck.ob(S, all(m(e.args[1], ['$0', '*as_bytes($0)']) for e in dec), 'the text given is decoded')
    eight = ('8', "len(repeat(0, '8'))")
    many = ['(%s < len(%s@Ok))' % (k, d) for d in D for k in eight] + ['!(len(%s@Ok) < 9)' % d for d in D]
    few = ['!(%s < len(%s@Ok))' % (k, d) for d in D for k in eight] + ['(len(%s@Ok) < 9)' % d for d in D]
    ok = 0
    for n, r in g.rets():
        for x in alts(r):
            if x.op == 'agg' and x.a[1] == 'Ok':
                ok += 1
                v = show(field(field(x, '0'), '0'))
                ck.ob(S, any(m2(v, f % d) for d in D for f in (
                    "u64::from_le_bytes(repeat(0, '8')[[RangeTo{end: len(%s@Ok)}]:=%%s@Ok])",)), 'the bytes are completed with zeros: %s' % v[:60] + '..' + v[-80:])
    ck.ob(S, ok, 'amounts can be parsed')
    ck.hold(S, g.ret_only_if('Result::Ok(*', few), 'eight bytes at most are accepted')
    w = g.reach([g.a.entry], lambda n, e: e is not None and e.kind == 'ret' and mays(e.args[0], 'Result::Err(*'), None, lambda l: lm(l, many + [d + ' is Err' for d in D]))
    ck.ob(S, w is None, 'only what does not decode or is too long is refused', w and g.describe(w))
    ck.ob(S, not nopanic(g), 'no panic: %s' % nopanic(g))


def m2(v, f):
    d = f.split('len(', 1)[1].split('@Ok)}]', 1)[0]
    return v == f.replace('%s', d)


def split2(t):
    """(text, separator, part) of a part of text split at a separator, or None"""
    s = show(t)
    if t.op == 'field' and s[-7:] in ('@Some.0', '@Some.1'):
        c = t.a[0]
        while c.op != 'call':
            c = c.a[0]
        if c.a[0] in ('str::split_once', 'str::rsplit_once'):
            ch = show(c.a[2])
            return c.a[1], {'126': '~', '46': '.'}.get(ch, ch.strip("'")), int(t.a[1])
    return None


def decimal_parser(ck):
    p, S = ck.p, 'decimal amount parser'
    ca = p.adt('CoinAmount')
    g = ck.graph(G(p, p.find('from_str', 'CoinAmount', 'FromStr'), ['Precision::decimals', 'Precision::multiplier', 'CoinAmount::with', 'path:*TryFrom<u8>*']))
    built = [(e, e.args) for e in g.events('CoinAmount::with')] + [(e, [field(e.args[0], f) for f in ('int', 'fract', 'precision')]) for e in g.events(kind='agg', pred=lambda e: e.name == ca)]
    ck.ob(S, bool(built), 'a decimal amount is built')

    def plain(t):
        return all(m(a, ['str::replace($0, *', '$0']) for a in alts(t))

    def number(t):
        """text before the precision"""
        return all(plain(a) or (split2(a) is not None and split2(a)[1:] == ('~', 0) and plain(split2(a)[0])) for a in alts(t))

    def part(t, k, alone):
        ok = False
        for a in alts(t):
            q = split2(a)
            if q and q[1:] == ('.', k) and number(q[0]):
                ok = True
            elif not alone(a):
                return False
        return ok

    def precision(t):
        return any(split2(a) and split2(a)[1:] == ('~', 1) and plain(split2(a)[0]) for a in alts(t)) and all(show(a) == "''" or split2(a) and split2(a)[1:] == ('~', 1) for a in alts(t))

    def parsed(t):
        """argument of a successful parse"""
        s = show(t)
        if not (s.startswith('parse:u64(') and s.endswith('@Ok')):
            return None
        while t.op != 'call':
            t = t.a[0]
        return t.a[1]
    subs, vals = set(), set()
    for e, (i, f, pr) in [(e, a) for e, a in built]:
        for a in alts(i):
            x = parsed(a)
            ck.ob(S, x is not None and part(x, 0, lambda y: number(y)), 'the integer part is the text before the dot: %s' % cutstr(show(a)), loc=e.loc)
        src = [x for x in subterms(pr) if x.op == 'call' and x.a[0] == 'parse:u64']
        ck.ob(S, src and all(precision(x.a[1]) for x in src), 'the precision is the text after the tilde: %s' % cutstr(show(pr)), loc=e.loc)
        for a in alts(f):
            if show(a) == '0':
                continue
            ok = None
            if a.op == 'bin' and a.a[0] == 'Mul' or a.op == 'call' and a.a[0] == 'u64::saturating_mul':
                o = a.a[1:]
                for v, k in (o, o[::-1]):
                    x = parsed(v)
                    if x is None or not part(x, 1, lambda y: show(y) == "'0'"):
                        continue
                    ks = show(k)
                    for z in subterms(k):
                        if z.op == 'call' and z.a[0] == 'usize::checked_sub' or z.op == 'bin' and z.a[0] == 'Sub':
                            lo = show(z.a[2])
                            if lo == 'len(%s)' % show(x) and 'Precision::decimals(%s)' % show(pr) in show(z.a[1]) and ks.startswith('u64::pow(10, '):
                                ok = z
                                vals.add(show(v))
                                subs.add((show(z), show(z.a[1]), lo))
            ck.ob(S, ok is not None, 'the fraction is scaled by the digits missing: %s' % cutstr(show(a), 200), loc=e.loc)
    ck.ob(S, bool(subs), 'fractions are scaled')
    fits = [s + ' is Some' for s, _, _ in subs] + ['!(%s < %s)' % (d, l) for _, d, l in subs]
    toolong = [s + ' is None' for s, _, _ in subs] + ['(%s < %s)' % (d, l) for _, d, l in subs]
    zero = ['(0 == %s)' % v for v in vals] + ['(%s == 0)' % v for v in vals]
    for e, _ in built:
        ck.hold(S, g.only_if(lambda x, e=e: x is e, fits + zero), 'no digit of the fraction is lost', loc=e.loc)
    if any(show(a) == '0' for _, x in built for a in alts(x[1])):
        ck.ob(S, bool(g.edges(zero)), 'a fraction becomes zero only if it is')
    def about(t):
        return any(x.op == 'call' and x.a[0] == 'parse:u64' and precision(x.a[1]) for x in ([t] if t.op == 'call' else []))
    empty = lambda l: l[0] == 'is' and l[2] == 'None' and "split_once(" in show(l[1])[:20] and ', 126)' in show(l[1])[-6:]
    isempty = lambda l: l[0] == 'b' and l[1].op == 'eq' and any(show(x) == "''" and precision(y) for x, y in (l[1].a, l[1].a[::-1]))
    w = g.reach([g.a.entry], lambda n, e: e is not None and e in [x for x, _ in built], None,
                lambda l: l[0] == 'is' and about(l[1]) or empty(l) or isempty(l) and l[2])
    ck.ob(S, w is None, 'a precision which is given is used', w and g.describe(w))
    has = lambda l: l[0] == 'is' and l[2] == 'Some' and "split_once(" in show(l[1])[:20] and ', 126)' in show(l[1])[-6:]
    nodes = {n for n, t, ls in g.edges(lambda l: l[0] == 'is' and l[2] == 'Err' and about(l[1]))}
    empties = g.edges(isempty)
    w = g.reach([g.a.entry], lambda n, e: n in nodes, None, lambda l: isempty(l) and not l[2] or not empties and has(l))
    ck.ob(S, w is None, 'no precision is required', w and g.describe(w))
    w = g.reach([g.a.entry], lambda n, e: e is not None and e.kind == 'ret' and mays(e.args[0], 'Result::Err(*'), None,
                lambda l: l[0] == 'is' and l[2] == 'Err' or lm(l, toolong))
    ck.ob(S, w is None, 'refused only if a part does not parse or has too many digits', w and g.describe(w))
    w = g.reach([g.a.entry], lambda n, e: e is not None and e.kind == 'ret' and mays(e.args[0], 'Result::Ok(*'), lambda e: e in [x for x, _ in built])
    ck.ob(S, w is None, 'what is returned is the decimal amount built', w and g.describe(w))
    ck.ob(S, not nopanic(g), 'no panic: %s' % nopanic(g))


def decimal_text(ck):
    p, S = ck.p, 'decimal amount text'
    alt = lambda l: lit(l) in ('Formatter::alternate($1)', '!Formatter::alternate($1)')
    g = ck.graph(G(p, p.find('fmt', 'CoinAmount', 'Display'), ['Precision::decimals'], split=alt))
    cut = lambda l: lit(l) == 'Formatter::alternate($1)'
    DEC = 'Precision::decimals($0.precision)'
    writes = [e for e in g.events(['*write_str', '*write_char', '*write_fmt']) if not any(cut(l) for l in e.node.hist)]
    kind = {}
    FR = ['to_string($0.fract)', '$0.fract']
    pad = ["fmt::format(Arguments::new(bytesb'*0\\x00\\x00*', [Argument::new_display(''), Argument::from_usize((%s as usize Sub len(to_string($0.fract)))), Argument::new_display(to_string($0.fract))]))" % DEC,
           "fmt::format(Arguments::new(bytes*, [Argument::new_display(to_string($0.fract)), Argument::from_usize(%s as usize)]))" % DEC,
           "fmt::format(Arguments::new(bytes*, [Argument::new_display($0.fract), Argument::from_usize(%s as usize)]))" % DEC,
           "fmt::format(Arguments::new(bytes*, [Argument::new_display(str::repeat('0', (%s as usize Sub len(to_string($0.fract))))), Argument::new_display(to_string($0.fract))]))" % DEC]
    for e in writes:
        t = e.args[1]
        s = show(t)
        if '$0.fract' in s:
            kind[e] = 'fraction'
            c = t
            ok = c.op == 'call' and c.a[0] == 'str::trim_end_matches' and show(c.a[2]) in ('48', "'0'")
            ck.ob(S, ok, 'the fraction is written without trailing zeros only: %s' % cutstr(s), loc=e.loc)
            if ok:
                for a in alts(c.a[1]):
                    ck.ob(S, m(a, pad + ['to_string($0.fract)']), 'the fraction is padded to the precision: %s' % cutstr(show(a), 200), loc=e.loc)
                ck.ob(S, any(m(a, pad) for a in alts(c.a[1])), 'short fractions are padded', loc=e.loc)
        elif '$0.int' in s:
            kind[e] = 'int'
            ck.ob(S, m(t, ['to_string($0.int)', 'Arguments::new(*[Argument::new_display($0.int)])', 'Arguments::new(*[Argument::new_display(to_string($0.int))])']), 'the integer part is written: %s' % cutstr(s), loc=e.loc)
        elif s in ('46', "'.'"):
            kind[e] = 'dot'
        elif DEC in s:
            kind[e] = 'precision'
            ck.ob(S, '~' in s, 'the precision follows a tilde: %s' % cutstr(s), loc=e.loc)
        else:
            ck.ob(S, s in ('126', "'~'"), 'nothing else is written: %s' % cutstr(s), loc=e.loc)
    okret = lambda n, e: e is not None and e.kind == 'ret' and mays(e.args[0], ['Result::Ok(*', 'Formatter::write_*', 'Write::write_*'])
    no = ['!(0 < $0.fract)', '($0.fract == 0)', '(0 == $0.fract)']
    yes = ['(0 < $0.fract)', '!($0.fract == 0)', '!(0 == $0.fract)']
    bycls = lambda k: [e for e in writes if kind.get(e) == k]
    for k in ('int', 'dot', 'fraction', 'precision'):
        ck.ob(S, bool(bycls(k)), 'the %s is written' % k)
        w = g.reach([g.a.entry], okret, lambda e: e in bycls(k), lambda l: cut(l) or k in ('dot', 'fraction') and lm(l, no))
        ck.ob(S, w is None, 'the %s is always written' % k, w and g.describe(w))
        if k in ('dot', 'fraction'):
            for e in bycls(k):
                ck.hold(S, g.only_if(lambda x, e=e: x is e, yes), 'no %s without a fraction' % k, loc=e.loc)
    seqs = ['int', 'dot', 'fraction', 'precision']
    for i, a in enumerate(seqs):
        for b in seqs[:i + 1]:
            for e in bycls(a):
                w = g.reach([t for t, _ in e.node.succ], lambda n, x: x is not None and x in bycls(b), None, cut)
                ck.ob(S, w is None, 'the %s is not followed by the %s' % (a, b), w and g.describe(w))
    for e in g.events(kind='panic'):
        w = g.reach([g.a.entry], lambda n, x: x is e, None, lambda l: cut(l) or lm(l, [
            '!contains([32, 95], Formatter::fill($1))', 'Formatter::precision($1) is Some', '(%s as usize < len(to_string($0.fract)))' % DEC,
            '!contains(*Formatter::fill($1))', '!(* == Formatter::fill($1))', '!(Formatter::fill($1) == *)']))
        ck.ob(S, w is None, 'no panic for a valid amount', w and g.describe(w), loc=e.loc)


def rounding(ck):
    p = ck.p
    M = 'Precision::multiplier(conv:Precision($1))'
    q, r = '($0.0 Div %s)' % M, '($0.0 Rem %s)' % M
    r2 = ['(%s Mul 2)' % r, '(2 Mul %s)' % r]
    zero = ['($0.0 == 0)', '(0 == $0.0)']
    rem = lambda l: ' Rem ' in lit(l) or lm(l, zero)
    Q, Q1 = [q, '(%s Add 0)' % q, '(0 Add %s)' % q], ['(%s Add 1)' % q, '(1 Add %s)' % q]
    some = ['(0 < %s)' % r, '!(%s == 0)' % r, '!(0 == %s)' % r]
    none = ['!(0 < %s)' % r, '(%s == 0)' % r, '(0 == %s)' % r]
    half = ['!(%s < %s)' % (x, M) for x in r2] + ['(%s <= %s)' % (M, x) for x in r2]
    less = ['(%s < %s)' % (x, M) for x in r2]
    for name, up, down, whole in (('floor', None, None, [q, '(($0.0 Sub %s) Div %s)' % (r, M)]), ('rem', None, None, [r]), ('ceil', some, none, ['u64::div_ceil($0.0, %s)' % M]),
                                  ('round', half, less, [a % x for x in r2 for a in ('(%s Add (%%s Div %s))' % (q, M), '((%%s Div %s) Add %s)' % (M, q))])):
        S = 'Amount::' + name
        g = ck.graph(G(p, p.find(name, 'Amount'), ['Precision::multiplier'], split=rem))
        ck.ob(S, bool(g.rets()), 'returns')
        cls = {}
        for n, t in g.rets():
            for a in alts(t):
                k = 'zero' if show(a) == '0' else 'whole' if m(a, whole) else None if up is None else 'never' if show(a) == '1' else 'down' if m(a, Q) else 'up' if m(a, Q1) else None
                ck.ob(S, k, 'the result is the rounded quotient: %s' % cutstr(show(a), 200))
                cls.setdefault(k, set()).add(n)
        ck.ob(S, 'whole' in cls or {'up', 'down'} <= set(cls), 'rounds both ways: %s' % sorted(map(str, cls)))
        for k, c in (('zero', zero), ('down', (down or []) + zero), ('up', up or []), ('never', zero), ('never', up or [])):  # zero has no remainder
            w = g.reach([g.a.entry], lambda n, e: e is not None and e.kind == 'ret' and n in cls.get(k, ()), None, lambda l: lm(l, c))
            ck.ob(S, w is None, 'result "%s" only under its condition' % k, w and g.describe(w))
        ck.ob(S, not nopanic(g), 'no panic: %s' % nopanic(g))


def check(ck):
    plain_text(ck)
    decimal_parser(ck)
    decimal_text(ck)
    rounding(ck)
