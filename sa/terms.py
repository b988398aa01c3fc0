"""Hash-consed value terms: where a value comes from, independent of how the
code that moves it around is written."""


class Term:
    __slots__ = ('op', 'a', 'id', 'depth', '_shape', '_str', 'ty')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
MAXDEPTH = 64
MAXPHI = 8


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        d = 0
        for x in a:
            if isinstance(x, Term):
                if x.depth > d:
                    d = x.depth
            elif isinstance(x, (tuple, frozenset)):
                for y in _walk(x):
                    if y.depth > d:
                        d = y.depth
        d += 1
        if d > MAXDEPTH and op not in ('top',):
            t = mk('top', 'deep')
            _tab[k] = t
            return t
        t = Term()
        t.op = op
        t.a = a
        t.id = len(_tab)
        t.depth = d
        t._shape = 0
        t._str = None
        t.ty = None
        _tab[k] = t
    return t


def _walk(x):
    for y in x:
        if isinstance(y, Term):
            yield y
        elif isinstance(y, (tuple, frozenset)):
            yield from _walk(y)


def subterms(t, seen=None):
    """all subterms (including t), each once"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for y in _walk(x.a):
            st.append(y)


_contains = {}


def contains(t, x):
    if t is x:
        return True
    if t.depth <= x.depth:
        return False
    k = (t.id, x.id)
    r = _contains.get(k)
    if r is None:
        r = any(contains(y, x) for y in _walk(t.a))
        _contains[k] = r
    return r


def cint(v):
    return mk('int', v)


def cbool(b):
    return mk('bool', bool(b))


def cstr(s):
    return mk('str', s)


TRUE = cbool(True)
FALSE = cbool(False)


def agg(adt, variant, fields):
    return mk('agg', adt, variant, tuple(fields))


def tup(*ts):
    return agg('()', '', [(str(i), t) for i, t in enumerate(ts)])


UNIT = tup()
EMPTY = mk('empty')
DEFAULT = mk('default')


def top(why='?'):
    return mk('top', why)


OPT = 'core::option::Option'
RES = 'core::result::Result'


def some(x):
    return agg(OPT, 'Some', [('0', x)])


NONE = agg(OPT, 'None', [])


def ok(x):
    return agg(RES, 'Ok', [('0', x)])


def err(x):
    return agg(RES, 'Err', [('0', x)])


def phi(ts):
    s = set()
    for t in ts:
        if t.op == 'phi':
            s |= t.a[0]
        else:
            s.add(t)
    if len(s) == 1:
        return next(iter(s))
    if len(s) > MAXPHI:
        return top('phi')
    if not s:
        return top('bottom')
    # same constructor: join field-wise
    l = sorted(s, key=lambda t: t.id)
    f = l[0]
    if f.op == 'agg' and all(x.op == 'agg' and x.a[0] == f.a[0] and x.a[1] == f.a[1]
                             and len(x.a[2]) == len(f.a[2]) for x in l):
        fs = []
        for i, (n, _) in enumerate(f.a[2]):
            fs.append((n, phi([x.a[2][i][1] for x in l])))
        return agg(f.a[0], f.a[1], fs)
    # updates of the same base: union of the updates
    base = [(x.a[0] if x.op == 'upd' else x) for x in l]
    if any(x.op == 'upd' for x in l) and all(b is base[0] for b in base):
        ev = frozenset()
        for x in l:
            if x.op == 'upd':
                ev |= x.a[1]
        return mk('upd', base[0], ev)
    t = mk('phi', frozenset(s))
    for x in l:
        if x.ty:
            t.ty = x.ty
            break
    return t


HOLE = mk('hole')


def subst(t, x, y, memo=None):
    """t with x replaced by y"""
    if t is x:
        return y
    if t.depth <= x.depth:
        return t
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is None:
        def go(z):
            if isinstance(z, Term):
                return subst(z, x, y, memo)
            if isinstance(z, tuple):
                return tuple(go(w) for w in z)
            if isinstance(z, frozenset):
                return frozenset(go(w) for w in z)
            return z
        na = tuple(go(z) for z in t.a)
        r = t if na == t.a else mk(t.op, *na)
        memo[t.id] = r
    return r


def upd(base, name, args):
    """base after (possibly) being updated by name(args)"""
    b0 = base
    while b0.op == 'upd':
        b0 = b0.a[0]
    if base.op == 'phi' or (base.op == 'top'):
        b0 = base
    args = tuple(subst(a, base, HOLE) if contains(a, base) else a for a in args)
    if b0 is not base:
        args = tuple(subst(a, b0, HOLE) if (contains(a, b0) and b0.op in ('empty',)) else a for a in args)
    ev = frozenset([(name,) + args])
    if base.op == 'upd':
        return mk('upd', base.a[0], base.a[1] | ev)
    return mk('upd', base, ev)


def join(a, b, prev=None, acc=True):
    """join at a control-flow merge; recognises accumulation over a loop"""
    if prev is not None and prev.op == 'upd' and prev.a[0] is a and b is not prev and b.op != 'upd' \
            and contains(b, prev):
        # one more step of an accumulation already recognised here
        return mk('upd', a, prev.a[1] | frozenset([('acc', subst(b, prev, HOLE))]))
    if a is b:
        return a
    if a.op == 'top':
        return a
    if b.op == 'top':
        return b
    if a.op == 'agg' and b.op == 'agg' and a.a[0] == b.a[0] and a.a[1] == b.a[1] \
            and len(a.a[2]) == len(b.a[2]):
        return agg(a.a[0], a.a[1], [(n, join(x, y, field(prev, n) if prev is not None and prev.op == 'agg' else None, acc))
                                     for (n, x), (_, y) in zip(a.a[2], b.a[2])])
    if a.op == 'with' or b.op == 'with':
        ba = a.a[0] if a.op == 'with' else a
        bb = b.a[0] if b.op == 'with' else b
        if ba is bb and not (maybe(a, b) or maybe(b, a)):
            pa, pb = ({p for p, _ in x.a[1]} if x.op == 'with' else set() for x in (a, b))
            ps = (pa & pb) | {uptokey(p) for p in pa ^ pb}
            ps = [p for p in ps if not any(q != p and p[:len(q)] == q for q in ps)]
            r = ba
            for p in sorted(ps, key=repr_path):
                va, vb, vp = a, b, prev
                for st in p:
                    va, vb = proj(va, st), proj(vb, st)
                    vp = proj(vp, st) if vp is not None else None
                r = setpath(r, p, join(va, vb, vp, acc))
            return r
    for x, y in ((a, b), (b, a)):
        base = x.a[0] if x.op == 'upd' else x
        if x.op in ('int', 'bool', 'str', 'empty', 'default', 'agg', 'call', 'upd', 'field', 'pay', 'elem', 'param', 'with') \
                and acc and y.op in ('bin', 'call', 'cast', 'ite') and contains(y, x) and y is not x:
            h = subst(y, x, HOLE)
            ev = frozenset([('acc', h)])
            if x.op == 'upd':
                return mk('upd', base, x.a[1] | ev)
            return mk('upd', x, ev)
    wa, wb = weak(a), weak(b)
    if (wa is not a or wb is not b) and (wa.a[0] if wa.op == 'upd' else wa) is (wb.a[0] if wb.op == 'upd' else wb):
        r = phi([wa, wb])
        return mk('upd', r.a[0], bykey(r.a[1])) if r.op == 'upd' else r
    return phi([a, b])


def uptokey(p):
    """the part of a path leading to a map, for which the other side may have no such key"""
    for i, st in enumerate(p):
        if i and st[0] == 'k':
            return p[:i]
    return p


def maybe(a, b):
    """does `a` write under a key of a locally built map where `b` may have nothing?"""
    if a.op != 'with' or not any(p[0][0] == 'k' for p, _ in a.a[1]):
        return False
    root = a.a[0].a[0] if a.a[0].op == 'upd' else a.a[0]
    keys = {p[0] for p, _ in b.a[1]} if b.op == 'with' else set()
    return any(p[0][0] == 'k' and p[0] not in keys for p, _ in a.a[1])


def weak(t):
    """a locally built map: writing under a key as one more addition"""
    if t.op == 'upd':
        b = weak(t.a[0])
        if b is t.a[0]:
            return t
        return mk('upd', b.a[0], b.a[1] | t.a[1]) if b.op == 'upd' else mk('upd', b, t.a[1])
    if t.op == 'with' and all(p[0][0] == 'k' for p, _ in t.a[1]):
        b = weak(t.a[0])
        root = b.a[0] if b.op == 'upd' else b
        ev = set(b.a[1]) if b.op == 'upd' else set()
        for p, v in t.a[1]:
            if len(p) > 1:
                v = setpath(pay(mk('call', 'get', t.a[0], p[0][1]), 'Some', '0'), p[1:], v)
            ev.add(('add', tup(p[0][1], forget(v))))
        return mk('upd', root, bykey(ev))
    return t


def bykey(ev):
    """additions under the same key as one addition of what may be there"""
    out, keys = set(), {}
    for e in ev:
        x = e[1] if e[0] == 'add' and len(e) == 2 else None
        if x is not None and x.op == 'agg' and x.a[0] == '()' and len(x.a[2]) == 2:
            keys.setdefault(x.a[2][0][1], []).append(x.a[2][1][1])
        else:
            out.add(e)
    for k, vs in keys.items():
        leaves, muts = [], set()

        def go(v):
            if v.op == 'phi':
                for z in v.a[0]:
                    go(z)
            elif v.op == 'upd':
                muts.update(v.a[1])
                go(v.a[0])
            else:
                leaves.append(v)
        for v in vs:
            go(v)
        v = phi(leaves)
        out.add(('add', tup(k, mk('upd', v, frozenset(muts)) if muts else v)))
    return frozenset(out)


def forget(t, memo=None):
    """values found in a locally built map do not depend on how far it is built"""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is None:
        if t.op == 'call' and t.a[0] == 'get' and t.a[1].op in ('upd', 'with', 'empty'):
            b = t.a[1]
            while b.op in ('upd', 'with'):
                b = b.a[0]
            if b.op == 'empty':
                t = mk('call', 'get', HOLE, t.a[2])

        def go(z):
            if isinstance(z, Term):
                return forget(z, memo)
            if isinstance(z, tuple):
                return tuple(go(w) for w in z)
            if isinstance(z, frozenset):
                return frozenset(go(w) for w in z)
            return z
        na = tuple(go(z) for z in t.a)
        r = t if na == t.a else mk(t.op, *na)
        memo[t.id] = r
    return r


# ---- projections ------------------------------------------------------------

def field(t, n):
    o = t.op
    if o == 'agg':
        for k, v in t.a[2]:
            if k == n:
                return v
        if t.a[1] == '' or len(t.a[2]) == 0:
            return mk('field', t, n)
        return mk('field', t, n)
    if o == 'with':
        return with_proj(t, ('f', n))
    if o == 'phi':
        return phi([field(x, n) for x in t.a[0]])
    if o == 'top' or o == 'newbox':
        return t
    return mk('field', t, n)


def pay(t, v, n):
    o = t.op
    if o == 'agg':
        if t.a[1] == v:
            return field(t, n)
        if t.a[0] == 'models::Entry':
            return t
        return top('bottom')
    if o == 'with':
        return with_proj(t, ('p', v, n))
    if o == 'phi':
        r = [pay(x, v, n) for x in t.a[0] if not (x.op == 'agg' and x.a[1] != v and x.a[0] != 'models::Entry')]
        return phi(r) if r else top('bottom')
    if o == 'top':
        return t
    return mk('pay', t, v, n)


ADDS = ('add',)
HARMLESS = ('sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'dedup', 'shrink_to_fit', 'reserve')


def elem(t):
    o = t.op
    if o == 'call':
        n = t.a[0]
        if n == 'keys':
            return field(elem(t.a[1]), '0')
        if n == 'values':
            return field(elem(t.a[1]), '1')
    if o == 'with':
        return with_proj(t, ('e',))
    if o == 'empty':
        return top('bottom')
    if o == 'agg' and t.a[0] == '[]':
        if t.a[2]:
            return phi([v for _, v in t.a[2]])
        return top('bottom')
    if o == 'upd':
        if all(e[0] in ADDS or e[0] in HARMLESS for e in t.a[1]):
            r = [e[1] for e in t.a[1] if e[0] in ADDS]
            if t.a[0] is not EMPTY and t.a[0] is not DEFAULT:
                r.append(elem(t.a[0]))
            r = [x for x in r if x is not HOLE]
            if r:
                return phi(r)
    if o == 'phi':
        l = [elem(x) for x in t.a[0] if x.op != 'empty']
        if l:
            return phi(l)
    if o == 'top':
        return t
    return mk('elem', t)


def proj(t, s):
    k = s[0]
    if k == 'f':
        return field(t, s[1])
    if k == 'p':
        return pay(t, s[1], s[2])
    if k == 'e':
        return elem(t)
    if k == 'k':
        return pay(getk(t, s[1]), 'Some', '0')
    if k == 'i':
        return index(t, s[1])
    if k == 's':
        return mk('call', 'slice', t, s[1])
    return mk('proj', t, s)


def getk(m, k):
    if m.op == 'with':
        for p, v in m.a[1]:
            if p == (('k', k),):
                return some(v)
    return mk('call', 'get', m, k)


def index(t, i):
    if i.op == 'elem' and i.a[0].op == 'agg' and i.a[0].a[0].endswith('::Range'):
        end = field(i.a[0], 'end')
        st = field(i.a[0], 'start')
        if st is cint(0) and end.op == 'call' and end.a[0] == 'len' and end.a[1] is t:
            return elem(t)
    if t.op == 'agg' and t.a[0] == '[]' and i.op == 'int' and i.a[0] < len(t.a[2]):
        return t.a[2][i.a[0]][1]
    if t.op == 'top':
        return t
    return mk('index', t, i)


def with_proj(t, s):
    base, ents = t.a
    sub = []
    for p, v in ents:
        if p[0] == s:
            if len(p) == 1:
                return v
            sub.append((p[1:], v))
    b = proj(base, s)
    if sub:
        return mkwith(b, sub)
    return b


def mkwith(b, ents):
    for p, v in ents:
        b = setpath(b, p, v)
    return b


def setpath(t, path, v):
    if not path:
        return v
    s = path[0]
    if t.op == 'agg' and s[0] == 'f':
        fs = [(n, setpath(x, path[1:], v) if n == s[1] else x) for n, x in t.a[2]]
        return agg(t.a[0], t.a[1], fs)
    if t.op == 'agg' and s[0] == 'p' and t.a[1] == s[1]:
        fs = [(n, setpath(x, path[1:], v) if n == s[2] else x) for n, x in t.a[2]]
        return agg(t.a[0], t.a[1], fs)
    if t.op == 'agg' and t.a[0] == '[]' and s[0] == 'i' and s[1].op == 'int' and s[1].a[0] < len(t.a[2]):
        fs = [(n, setpath(x, path[1:], v) if i == s[1].a[0] else x) for i, (n, x) in enumerate(t.a[2])]
        return agg(t.a[0], t.a[1], fs)
    if t.op == 'with':
        base, ents = t.a
    else:
        base, ents = t, ()
    out = []
    done = False
    for p, x in ents:
        if path[:len(p)] == p:
            out.append((p, setpath(x, path[len(p):], v)))
            done = True
        elif p[:len(path)] == path:
            continue
        else:
            out.append((p, x))
    if not done:
        out.append((path, v))
    out.sort(key=lambda e: repr_path(e[0]))
    r = mk('with', base, tuple(out))
    return r


def repr_path(p):
    return tuple(tuple((x if isinstance(x, str) else '#%09d' % x.id) for x in s) for s in p)


# ---- shapes (what trace partitioning keeps apart) -----------------------------

def shape(t, d=0):
    if t._shape != 0 and d == 0:
        return t._shape
    r = None
    if t.op == 'bool':
        r = t.a[0]
    elif t.op == 'agg':
        if d < 3:
            sub = tuple(shape(x, d + 1) for _, x in t.a[2])
        else:
            sub = ()
        if t.a[1] and not t.a[0].startswith('()'):
            r = (t.a[1],) + sub
        elif any(x is not None for x in sub):
            r = sub
    elif t.op == 'with' and d < 3:
        sub = tuple((repr_path(p), shape(x, d + 1)) for p, x in t.a[1] if shape(x, d + 1) is not None)
        b = shape(t.a[0], d + 1)
        if sub or b is not None:
            r = (b, sub)
    if d == 0:
        t._shape = r
    return r


# ---- printing -----------------------------------------------------------------

def short(adt):
    return adt.rsplit('::', 1)[-1]


def show(t, d=0):
    if d == 0 and t._str is not None:
        return t._str
    s = _show(t, d)
    if d == 0:
        t._str = s
    return s


def _show(t, d):
    if d > 32:
        return '…'
    o, a = t.op, t.a
    n = d + 1
    if o == 'int':
        return str(a[0])
    if o == 'bool':
        return 'true' if a[0] else 'false'
    if o == 'str':
        return repr(a[0])
    if o == 'param':
        return '$%d' % a[0]
    if o == 'agg':
        if a[0] == '()':
            return '(' + ', '.join(show(x, n) for _, x in a[2]) + ')'
        if a[0] == '[]':
            return '[' + ', '.join(show(x, n) for _, x in a[2]) + ']'
        nm = ('closure' if a[0].startswith('closure:') else short(a[0])) + ('::' + a[1] if a[1] and a[1] != short(a[0]) else '')
        if not a[2]:
            return nm
        if a[2][0][0] == '0':
            return nm + '(' + ', '.join(show(x, n) for _, x in a[2]) + ')'
        return nm + '{' + ', '.join('%s: %s' % (k, show(x, n)) for k, x in a[2]) + '}'
    if o == 'field':
        return show(a[0], n) + '.' + a[1]
    if o == 'pay':
        return '%s@%s%s' % (show(a[0], n), a[1], '' if a[2] == '0' else '.' + a[2])
    if o == 'elem':
        return 'each(%s)' % show(a[0], n)
    if o == 'call':
        return '%s(%s)' % (a[0], ', '.join(show(x, n) for x in a[1:]))
    if o == 'phi':
        return '{' + ' | '.join(sorted(show(x, n) for x in a[0])) + '}'
    if o == 'upd':
        return '%s+<%s>' % (show(a[0], n), '; '.join(sorted(
            '%s(%s)' % (e[0], ', '.join(show(x, n) for x in e[1:])) for e in a[1])))
    if o == 'with':
        return '%s[%s]' % (show(a[0], n), ', '.join('%s:=%s' % (showpath(p), show(v, n)) for p, v in a[1]))
    if o == 'ref':
        return '&mut<%s%s>' % (a[0] if not isinstance(a[0][1], Term) else show(a[0][1], n), showpath(a[1]))
    if o == 'top':
        return '⊤' + str(a[0] if a[0] != '?' else '')
    if o == 'eq':
        return '(%s)' % ' == '.join(sorted(show(x, n) for x in a))
    if o == 'lt':
        return '(%s < %s)' % (show(a[0], n), show(a[1], n))
    if o == 'not':
        return '!' + show(a[0], n)
    if o == 'isvar':
        return '(%s is %s)' % (show(a[0], n), a[1])
    if o == 'cast':
        return '%s as %s' % (show(a[1], n), a[0])
    if o == 'fn':
        return 'fn:' + a[0]
    if o == 'discr':
        return 'discr(%s)' % show(a[0], n)
    if o == 'index':
        return '%s[%s]' % (show(a[0], n), show(a[1], n))
    if o == 'bytes':
        return 'bytes' + repr(bytes(a[0]))
    if o == 'bin':
        return '(%s %s %s)' % (show(a[1], n), a[0], show(a[2], n))
    return '%s<%s>' % (o, ', '.join(show(x, n) if isinstance(x, Term) else str(x) for x in a))


def showpath(p):
    r = ''
    for s in p:
        if s[0] == 'f':
            r += '.' + s[1]
        elif s[0] == 'p':
            r += '@%s.%s' % (s[1], s[2])
        elif s[0] == 'e':
            r += '[]'
        elif s[0] in ('k', 'i', 's'):
            r += '[%s]' % show(s[1], 3)
        else:
            r += '[?]'
    return r
