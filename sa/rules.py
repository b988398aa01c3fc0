"""Queries over an analysed function: must-pass, guard and for-each obligations
stated as reachability cuts on the exploded control-flow graph."""
import fnmatch
import re
from engine import *

_pc = {}


class Pat:
    """glob with '*' = anything, matched in linear time"""
    def __init__(self, p):
        self.x = p.split('*')

    def match(self, s):
        x = self.x
        if len(x) == 1:
            return True if s == x[0] else None
        if not s.startswith(x[0]) or not s.endswith(x[-1]) or len(s) < len(x[0]) + len(x[-1]):
            return None
        i, end = len(x[0]), len(s) - len(x[-1])
        for y in x[1:-1]:
            k = s.find(y, i, end)
            if k < 0:
                return None
            i = k + len(y)
        return True
    fullmatch = match


def pat(p):
    """glob over the printed form of a term: '*' = anything"""
    r = _pc.get(p)
    if r is None:
        r = _pc[p] = Pat(p)
    return r


def m(t, p):
    """does the term (every alternative of it) match the pattern(s)?"""
    if isinstance(p, (list, tuple)):
        if t.op == 'phi':
            return all(m(x, p) for x in t.a[0])
        return any(m(t, q) for q in p)
    if callable(p):
        return p(t)
    if t.op == 'phi':
        if pat(p).match(show(t)):
            return True
        return all(m(x, p) for x in t.a[0])
    return pat(p).match(show(t)) is not None


def forms(t, cap=64):
    """the alternatives of a term with every inner choice resolved"""
    out, st = [], [t]
    while st:
        x = st.pop()
        ph = next((y for y in subterms(x) if y.op == 'phi'), None)
        if ph is None or len(out) + len(st) > cap:
            out.append(x)
            continue
        for y in ph.a[0]:
            st.append(subst(x, ph, y))
    return out


def mf(t, p):
    """does every alternative of the term, however deep the choice is, match?"""
    return m(t, p) or all(m(x, p) for x in forms(t))


def lit(l):
    """printed form of an edge condition"""
    k, t, v = l
    if k == 'is':
        return '%s is %s' % (show(t), v)
    if k == 'isnot':
        return '%s isnot %s' % (show(t), '|'.join(v))
    if k == 'b':
        return show(t) if v else '!' + show(t)
    if k == 'some':
        return 'next %s' % show(t)
    if k == 'none':
        return 'end %s' % show(t)
    return str(l)


def lm(l, ps):
    if callable(ps):
        return ps(l)
    s = lit(l)
    if isinstance(ps, str):
        ps = [ps]
    for p in ps:
        if callable(p):
            if p(l):
                return True
        elif pat(p).match(s):
            return True
    return False


class G:
    """one analysed function"""

    def __init__(self, prog, fn, stop=(), fresh=(), fluent=(), until=(), **kw):
        self.p = prog
        self.fn = fn

        def among(globs):
            globs = tuple(globs)

            def st(f):
                s = prog.short(f)
                return any(fnmatch.fnmatchcase(s, x) or (x.startswith('path:') and fnmatch.fnmatchcase(f.path, x[5:]))
                           for x in globs)
            return st
        self.a = Analysis(prog, fn, among(stop), fresh=among(fresh), fluent=among(fluent), until=among(until), **kw).run()
        self.nodes = self.a.live
        self.where = '%s (%s)' % (strip_path(fn.path), fn.loc[0])

    # -- basic views
    def events(self, name=None, kind=None, pred=None, args=None):
        out = []
        for n in self.nodes:
            for e in n.events:
                if kind and e.kind != kind:
                    continue
                if name and not ev_name(e, name):
                    continue
                if args is not None and not ev_args(e, args):
                    continue
                if pred and not pred(e):
                    continue
                out.append(e)
        return out

    def rets(self):
        return [(n, n.ret) for n in self.nodes if n.ret is not None]

    def okrets(self):
        """return nodes that may be a success"""
        out = []
        for n, v in self.rets():
            vs = v.a[0] if v.op == 'phi' else [v]
            if all((x.op == 'agg' and x.a[1] in ('Err',)) for x in vs):
                continue
            out.append(n)
        return out

    def stats(self):
        a = self.a
        return {'functions': len({f.fn.h for f in a.framelist if f.fn.crate != 'models'}),
                'contexts': len(a.framelist), 'nodes': len(self.nodes),
                'edges': sum(len(n.succ) for n in self.nodes),
                'call_sites': sum(1 for n in self.nodes for e in n.events if e.kind == 'call')}

    # -- reachability
    def reach(self, starts, is_target, cut_ev=None, cut_edge=None, cut_step=None):
        """path (list of nodes) from a start to a target that meets neither a cut
        event nor a cut edge; None if there is none.
        is_target(node, event or None): event targets are tested in order with the
        cuts inside a node."""
        prev = {}
        st = []
        for s in starts:
            if s.id not in prev:
                prev[s.id] = None
                st.append(s)
        while st:
            n = st.pop()
            cut = False
            for e in n.events:
                if is_target(n, e):
                    return self._path(prev, n)
                if cut_ev and cut_ev(e):
                    cut = True
                    break
            if cut:
                continue
            if is_target(n, None):
                return self._path(prev, n)
            for t, l in n.succ:
                if t.id in prev:
                    continue
                if cut_edge and any(cut_edge(x) for x in l):
                    continue
                if cut_step and cut_step(n, t):
                    continue
                prev[t.id] = n
                st.append(t)
        return None

    def _path(self, prev, n):
        out = []
        while n is not None:
            out.append(n)
            n = prev[n.id]
        return out[::-1]

    def describe(self, path):
        """readable witness: the conditions and calls along the path"""
        out = []
        for i, n in enumerate(path):
            for e in n.events:
                if e.kind == 'call':
                    out.append('%s %s' % (locs(e.loc), e.name))
            if i + 1 < len(path):
                for t, l in n.succ:
                    if t is path[i + 1]:
                        out += ['[%s]' % cutstr(lit(x)) for x in l]
                        break
            if n.ret is not None:
                out.append('return ' + cutstr(show(n.ret)))
        return out[-40:]

    def edges(self, lits):
        out = []
        for n in self.nodes:
            for t, l in n.succ:
                if any(lm(x, lits) for x in l):
                    out.append((n, t, l))
        return out

    # -- obligations; each returns (ok, witness)
    def must(self, via=None, lits=(), target=None):
        """every path to a successful return passes event `via` or one of `lits`"""
        tg = target or self._okt()
        p = self.reach([self.a.entry], tg, evp(via), (lambda l: lm(l, lits)) if lits else None)
        return p is None, p and self.describe(p)

    def _okt(self):
        oks = {n.id for n in self.okrets()}
        return lambda n, e: e is None and n.id in oks

    def only_if(self, ev, lits, via=None):
        """every path to event `ev` takes an edge in `lits` (or passes `via`)"""
        q = evp(ev)
        p = self.reach([self.a.entry], lambda n, e: e is not None and q(e), evp(via), lambda l: lm(l, lits))
        return p is None, p and self.describe(p)

    def ret_only_if(self, retpat, lits, via=None):
        """returning a value matching retpat requires an edge in `lits` (or event `via`)"""
        ids = {n.id for n, v in self.rets() if mays(v, retpat)}
        p = self.reach([self.a.entry], lambda n, e: e is None and n.id in ids, evp(via), lambda l: lm(l, lits))
        return p is None, p and self.describe(p)

    def after(self, lits, via=None, unless=(), target=None):
        """from every edge matching `lits`, every path to the target (default: successful
        return) passes `via` or an `unless` edge"""
        tg = target or self._okt()
        st = [t for _, t, _ in self.edges(lits)]
        p = self.reach(st, tg, evp(via), (lambda l: lm(l, unless)) if unless else None)
        return p is None, p and self.describe(p)

    def between(self, lits, via=None, unless=(), target=None):
        """once an edge matching `lits` is taken, the target (an event or a success) is reached only after
        `via` or an `unless` edge; a condition tested again after it was met does not count"""
        q, tg = evp(via), target or self._okt()
        terms = {l[1] for _, _, ls in self.edges(lits) for l in ls if lm(l, lits)}
        # state: (phase, last condition taken on one of the tested terms)
        seen, st, prev = set(), [(self.a.entry, (0, None), None)], {}
        while st:
            n, s, pr = st.pop()
            if (n.id, s) in seen:
                continue
            seen.add((n.id, s))
            prev[n.id, s] = pr
            k = (n.id, s)
            ph, known = s
            for e in n.events:
                if tg(n, e):
                    if ph == 1:
                        return False, self._trail(prev, k)
                    ph = 0
                elif q and ph == 1 and q(e):
                    ph = 2
            if tg(n, None) and ph == 1:
                return False, self._trail(prev, k)
            for t, ls in n.succ:
                if known and any(contra(known, l) for l in ls):
                    continue
                p2, k2 = ph, known
                for l in ls:
                    if l[0] in ('some', 'none'):
                        k2 = None
                    elif l[1] in terms:
                        k2 = l
                if ph == 0 and any(lm(l, lits) for l in ls):
                    p2 = 1
                elif ph == 1 and unless and any(lm(l, unless) for l in ls):
                    p2 = 2
                st.append((t, (p2, k2), k))
        return True, None

    def _trail(self, prev, k):
        byid = {n.id: n for n in self.nodes}
        out, guard = [], set()
        while k is not None and k not in guard:
            guard.add(k)
            out.append(byid[k[0]])
            k = prev.get(k)
        return self.describe(out[::-1])

    def never_after(self, lits, ev=None, target=None, unless=()):
        """no path from an edge matching lits to ev / target"""
        q = evp(ev) if ev else None
        tg = target or (lambda n, e: e is not None and q(e))
        st = [t for _, t, _ in self.edges(lits)]
        p = self.reach(st, tg, None, (lambda l: lm(l, unless)) if unless else None)
        return p is None, p and self.describe(p)

    def foreach(self, src, via=None, unless=(), complete=True, target=None):
        """for every element of collection `src` event `via` happens before the next element
        is taken / a success is returned; and no success before the collection is exhausted"""
        tg = target or self._okt()
        nx, en = ['next ' + s for s in aslist(src)], ['end ' + s for s in aslist(src)]
        st = self.edges(nx)
        if not st:
            return False, ['no iteration over %s' % (src,)]
        un = (lambda l: lm(l, unless)) if unless else None
        q = evp(via)
        if not complete:
            heads = {n.id for n, _, _ in st} | {n.id for n, _, _ in self.edges(en)}

            def t2(n, e):
                return (e is None and n.id in heads) or tg(n, e)
            p = self.reach([t for _, t, _ in st], t2, q, un) if q else None
            return p is None, p and self.describe(p)
        # the loops over src that do it for every element; a success needs the end of one of them
        good, wit = set(), None
        loops = {}
        for n, t, l in self.edges(nx + en):
            loops.setdefault((n.frame.id, n.block), []).append((n, t, l))
        for k, es in loops.items():
            heads = {n.id for n, _, _ in es}

            def t2(n, e):
                return (e is None and n.id in heads) or tg(n, e)
            p = q and self.reach([t for n, t, l in es if any(lm(x, nx) for x in l)], t2, q, un)
            if p:
                wit = wit or p
            else:
                good |= heads
        ends = {(n.id, t.id) for n, t, l in self.edges(en) if n.id in good}
        emp = unless_empty(src)
        p = self.reach([self.a.entry], tg, None, lambda l: lm(l, emp), cut_step=lambda n, t: (n.id, t.id) in ends)
        if p is None:
            return True, None
        if wit:
            return False, self.describe(wit)
        return False, ['success without exhausting %s' % (src,)] + self.describe(p)


def contra(a, b):
    """two conditions on the same value that exclude each other"""
    if a[1] is not b[1]:
        return False
    if a[0] == 'is':
        return b[0] == 'is' and a[2] != b[2] or b[0] == 'isnot' and a[2] in b[2]
    if a[0] == 'isnot':
        return b[0] == 'is' and b[2] in a[2]
    return a[0] == 'b' and b[0] == 'b' and a[2] != b[2]


def locals_of(g):
    """collections built in the function and then iterated: {collection: its items}"""
    out = {}
    for n, _, ls in g.edges(['next *']):
        for l in ls:
            if l[0] == 'some' and l[1].op == 'upd':
                its, b = [], l[1]
                while b.op == 'upd':
                    its += [x[1] for x in b.a[1] if x[0] == 'add' and len(x) == 2]
                    b = b.a[0]
                if show(b).startswith(('empty<', 'default')):
                    out[show(l[1])] = its
    return out


def through(g, src, via, unless=(), item=None):
    """`via` happens for every element of src, directly or for every member of a collection into which
    every element of src was put; src None: `via` happens once, or `item` is put in such a collection"""
    r = g.foreach(src, via, unless) if src else g.must(via, unless)
    if r[0]:
        return r
    for c, its in locals_of(g).items():
        put = lambda e: e.name == 'add' and any(x is e.args[1] for x in its)
        if item:
            put = lambda e: e.name == 'add' and any(x is e.args[1] for x in its) and m(e.args[1], item)
        a = g.foreach(src, put, unless) if src else g.must(put, unless)
        if a[0] and g.foreach(c, via, complete=False)[0] and g.must(lits=['end ' + c] + list(unless))[0]:
            return True, None
    return r


def unless_empty(src):
    return ['(0 == len(%s))' % s for s in aslist(src)]


def aslist(x):
    return [x] if isinstance(x, str) else list(x)


def ev_name(e, name):
    return any(fnmatch.fnmatchcase(e.name, x) for x in aslist(name))


def ev_args(e, args):
    if len(args) > len(e.args):
        return False
    return all(a is None or m(e.args[i], a) for i, a in enumerate(args))


def E(name=None, *args, kind=None, pred=None):
    """event predicate"""
    def q(e):
        return (kind is None or e.kind == kind) and (name is None or ev_name(e, name)) and \
            ev_args(e, args) and (pred is None or pred(e))
    return q


def anyof(*qs):
    qs = [evp(q) for q in qs]
    return lambda e: any(q(e) for q in qs)


def evp(v):
    if v is None:
        return None
    if callable(v):
        return v
    if isinstance(v, str):
        return E(v)
    return E(*v)


def mays(v, p):
    """may the value match?"""
    if v.op == 'phi':
        return any(mays(x, p) for x in v.a[0])
    return m(v, p)


def alts(v):
    return sorted(v.a[0], key=lambda t: t.id) if v.op == 'phi' else [v]


def locs(l):
    return '%s:%s' % (l[0], l[1]) if l else ''


def cutstr(s, n=220):
    return s if len(s) <= n else s[:n] + '…'


# ---- decision tables ------------------------------------------------------------

def variant_terms(prog, adt, base=None):
    """one symbolic value per variant of an enum"""
    base = base or mk('param', 0, 'p0')
    out = []
    a = prog.adts[adt]
    for v in a['variants']:
        out.append((v['name'], agg(adt, v['name'], [(f[0], pay(base, v['name'], f[0])) for f in v['fields']])))
    return out


def table(ck, fn, adt, argi=0, stop=(), base=None, **kw):
    """{variant: set of printed return values} of fn specialised on argument argi"""
    out = {}
    for name, t in variant_terms(ck.p, adt, base or mk('param', argi, '')):
        args = [None] * (argi + 1)
        args[argi] = t
        g = ck.graph(G(ck.p, fn, stop, argterms=args, **kw))
        out[name] = {show(x) for _, v in g.rets() for x in alts(v)}
    return out


# ---- formatting -----------------------------------------------------------------

def fmt_parts(t):
    """pieces written by a format_args! value: list of ('lit', str) / ('arg', trait, term, spec)"""
    if t.op == 'str':
        return [('lit', t.a[0])]
    if t.op == 'call' and t.a[0] in ('Arguments::from_str', 'Arguments::new_const', 'Arguments::from_str_nonconst'):
        return fmt_parts(t.a[1])
    if t.op == 'call' and t.a[0] == 'Arguments::new' and t.a[1].op == 'bytes':
        b = t.a[1].a[0]
        args = [v for _, v in t.a[2].a[2]] if t.a[2].op == 'agg' else []
        out = []
        i = n = 0
        while i < len(b):
            c = b[i]
            i += 1
            if c == 0:
                break
            if c < 128:
                out.append(('lit', bytes(b[i:i + c]).decode('utf8', 'replace')))
                i += c
            elif c == 128:
                ln = b[i] | b[i + 1] << 8
                out.append(('lit', bytes(b[i + 2:i + 2 + ln]).decode('utf8', 'replace')))
                i += 2 + ln
            else:
                spec = []
                if c & 1:
                    spec.append(('flags', b[i] | b[i + 1] << 8 | b[i + 2] << 16 | b[i + 3] << 24))
                    i += 4
                if c & 2:
                    spec.append(('width', b[i] | b[i + 1] << 8))
                    i += 2
                if c & 4:
                    spec.append(('prec', b[i] | b[i + 1] << 8))
                    i += 2
                if c & 8:
                    n = b[i] | b[i + 1] << 8
                    i += 2
                a = args[n] if n < len(args) else None
                n += 1
                if a is not None and a.op == 'call' and a.a[0].startswith('Argument::new_'):
                    out.append(('arg', a.a[0][14:], a.a[1], tuple(spec)))
                else:
                    out.append(('arg', '?', a, tuple(spec)))
        # merge literals
        r = []
        for x in out:
            if x[0] == 'arg' and x[1] == 'display' and x[2] is not None and x[2].op == 'str' and not x[3]:
                x = ('lit', x[2].a[0])
            if x[0] == 'lit' and r and r[-1][0] == 'lit':
                r[-1] = ('lit', r[-1][1] + x[1])
            else:
                r.append(x)
        return r
    return None


def emitted(e):
    """text pieces written to a formatter by this event, or None if it is not a write"""
    if e.kind != 'call':
        return None
    if e.name in ('Formatter::write_str', 'Write::write_str', 'Formatter::write_char', 'Write::write_char'):
        t = e.args[1]
        if t.op == 'str':
            return [('lit', t.a[0])]
        return [('arg', 'display', t, ())]
    if e.name in ('Formatter::write_fmt', 'Write::write_fmt'):
        return fmt_parts(e.args[1])
    if e.name in ('Display::fmt', 'Debug::fmt', 'LowerHex::fmt', 'UpperHex::fmt'):
        return [('arg', e.name.split('::')[0].lower(), e.args[0], ())]
    if e.name in ('DisplayBaid64::fmt_baid64',):
        return [('arg', 'baid64', e.args[0], ())]
    return None


def piece(x):
    return x[1] if x[0] == 'lit' else '<%s>' % show(x[2])


def texts(g, cap=4000):
    """every text written on a path to a successful return: {text: [conditions on one such path]}.
    Loop-free writers only; raises Limit otherwise."""
    oks = {n.id for n in g.okrets()}
    out = {}
    st = [(g.a.entry, '', (), frozenset())]
    k = 0
    while st:
        n, s, conds, seen = st.pop()
        k += 1
        if k > cap * 50 or len(out) > cap:
            raise Limit('%s: too many texts' % g.where)
        for e in n.events:
            em = emitted(e)
            if em:
                s += ''.join(piece(x) for x in em)
        if n.ret is not None:
            if n.id in oks:
                out.setdefault(s, conds)
            continue
        if n.id in seen:
            raise Limit('%s: loop in a writer' % g.where)
        for t, l in n.succ:
            st.append((t, s, conds + tuple(lit(x) for x in l), seen | {n.id}))
    return out


def cases(ck, g, site, tbl, what='', panics=False):
    """the function returns exactly the listed shapes, each only under its conditions.
    tbl: [(return pattern, [condition, ...])]; a condition is a pattern or list of alternative patterns"""
    site = site or g.where
    for n, v in g.rets():
        for x in alts(v):
            ck.ob(site, any(m(x, p) for p, _ in tbl), '%s returns only the expected results (%s)' % (what, cutstr(show(x), 300)))
    for p, conds in tbl:
        hit = [n for n, v in g.rets() if mays(v, p)]
        ck.ob(site, bool(hit), '%s can return %s' % (what, p))
        for c in conds:
            ck.hold(site, g.ret_only_if(p, c), '%s returns %s only if %s' % (what, p, c))
    if not panics:
        ck.ob(site, not nopanic(g), '%s does not panic: %s' % (what, nopanic(g)))


def nopanic(g):
    return sorted({'%s %s' % (locs(e.loc), e.name) for e in g.events(kind='panic')})


def order(g, preds):
    """no event of a later class is followed by an event of an earlier class"""
    preds = [evp(p) for p in preds]
    for j in range(len(preds)):
        for i in range(j):
            for n in g.nodes:
                for k, e in enumerate(n.events):
                    if not preds[j](e):
                        continue
                    for e2 in n.events[k + 1:]:
                        if preds[i](e2):
                            return False, ['%s before %s' % (e, e2)]
                    p = g.reach([t for t, _ in n.succ], lambda n, e: e is not None and preds[i](e))
                    if p:
                        return False, ['%s' % e] + g.describe(p)
    return True, None


def npos(g, lits, ev, cap=6):
    """possible numbers of edges matching lits on the way to an event (or a return matching a callable)"""
    q = evp(ev)
    seen = {(g.a.entry.id, 0)}
    st = [(g.a.entry, 0)]
    out = set()
    while st:
        n, c = st.pop()
        for e in n.events:
            if q(e):
                out.add(c)
        for t, l in n.succ:
            d = min(cap, c + (1 if any(lm(x, lits) for x in l) else 0))
            if (t.id, d) not in seen:
                seen.add((t.id, d))
                st.append((t, d))
    return out


def walk(g, init, on_event=None, on_edge=None, cap=400000):
    """product of the graph with a finite automaton; yields (return node, state).
    on_event(state, event) / on_edge(state, label) return the next state or None to cut"""
    seen = set()
    st = [(g.a.entry, init)]
    out = []
    while st:
        n, s = st.pop()
        if (n.id, s) in seen:
            continue
        seen.add((n.id, s))
        if len(seen) > cap:
            raise Limit('%s: automaton product too large' % g.where)
        if on_event:
            for e in n.events:
                s = on_event(s, e)
                if s is None:
                    break
            if s is None:
                continue
        if n.ret is not None:
            out.append((n, s))
            continue
        for t, ls in n.succ:
            s2 = s
            if on_edge:
                for l in ls:
                    s2 = on_edge(s2, l)
                    if s2 is None:
                        break
            if s2 is not None:
                st.append((t, s2))
    return out


def okval(v):
    """alternatives of the payload of a returned Ok"""
    return [f for x in alts(v) if x.op == 'agg' and x.a[1] == 'Ok' for f in alts(field(x, '0'))]


def bytes_of(t):
    """strip representation-preserving byte views"""
    while True:
        if t.op == 'call' and t.a[0] == 'slice' and show(t.a[2]) == 'RangeFull':
            t = t.a[1]
        elif t.op == 'call' and t.a[0].split('::')[-1] in (
                'to_byte_array', 'as_ref', 'as_slice', 'to_vec', 'into_inner', 'as_inner', 'to_inner') and len(t.a) == 2:
            t = t.a[1]
        else:
            return t


def lazy(t):
    return t.op == 'agg' and t.a[0] in NEXT or t.op == 'call' and t.a[0] in ('keys', 'values')


def drain(ck, v, stop=()):
    """graph of taking every item from a lazy sequence; each item taken is an `add` event"""
    return ck.graph(G(ck.p, ck.p.models['iter_collect'], stop, argterms=[v]))


def seq(ck, fn, stop=(), okres=False, g=None, **kw):
    """graphs in which the sequence returned by fn is enumerated (fn itself if it builds a collection)"""
    g = g or ck.graph(G(ck.p, fn, stop, **kw))
    out = []
    eager = False
    for n, r in g.rets():
        for v in (okval(r) if okres else alts(r)):
            while v.op == 'cast' or v.op == 'call' and v.a[0] == 'reduced':
                v = v.a[1] if v.op == 'call' else next(x for x in v.a if isinstance(x, Term))
            if lazy(v):
                out.append(drain(ck, v, stop))
            elif plain(v):
                out.append(drain(ck, v, stop))
            else:
                eager = True
                if v.op == 'call' and str(v.a[0]).startswith('Iterator::'):
                    ck.ob(ck.p.short(fn), False, 'the sequence is handed out whole: %s' % cutstr(show(v)))
    return g, ([g] if eager else []) + out


def plain(v):
    """a collection passed through unchanged"""
    return v.op in ('field', 'param', 'pay', 'elem')


def counter(p, fn):
    """fn returns a local that starts at zero and is otherwise only ever increased by one"""
    b = p.body(fn)
    ass = {}
    for ss, t, _, _ in b.blocks:
        for s in ss:
            if s[0] == '=':
                if s[2][0] == 'ref' and s[2][1] != 'shared' and not s[2][2][1]:
                    ass.setdefault(s[2][2][0], []).append(None)
                if not s[1][1]:
                    ass.setdefault(s[1][0], []).append(s[2])
        if t[0] == 'call' and not t[3][1]:
            ass.setdefault(t[3][0], []).append(None)

    r = ass.get(0, [])
    while len(r) == 1 and r[0] and r[0][0] == 'use' and r[0][1][0] in 'cm' and not r[0][1][1][1]:
        c = r[0][1][1][0]
        r = ass.get(c, [])
    if len(r) != 2:
        return False
    zero = one = 0
    for x in r:
        if not x or x[0] not in ('use', 'bin'):
            return False
        if x[0] == 'use' and x[1][0] == 'k':
            zero += x[1][1].get('v') == 0
            continue
        if x[0] == 'use' and x[1][1][1] == (('f', '0'),):
            y = ass.get(x[1][1][0], [])
            x = y[0] if len(y) == 1 and y[0] else x
        if x[0] == 'bin' and x[1].startswith('Add') and x[2][0] in 'cm' and x[2][1] == (c, ()) and x[3][0] == 'k' \
                and x[3][1].get('v') == 1:
            one += 1
    return zero == 1 and one == 1


def listing(ck, site, fn, src, item, conds=(), stop=(), okres=False, what='', g=None, allow=(), count=False,
            **kw):
    """fn lists (or counts, if `count`) exactly the items of `src` that satisfy every condition, each as `item`.
    conds: [(name, positive literals, negative literals)]"""
    g0, gs = seq(ck, fn, stop, okres, g, **kw)
    ck.ob(site, len(gs) == 1, '%s is one enumeration (%d)' % (what, len(gs)))
    for h in gs:
        adds = h.events('add')
        good = [e for e in adds if m(e.args[1], item)]
        if count and not adds and counter(ck.p, fn):
            good = adds = h.events(kind='incr')
            ck.ob(site, len({str(e.loc) for e in adds}) == 1, '%s counts at one place' % what)
        ck.ob(site, bool(good), '%s yields items of the expected form: %s' % (what, sorted({cutstr(show(e.args[1])) for e in adds})[:4]))
        for e in adds:
            ck.ob(site, e in good or m(e.args[1], list(allow) or ['\0']),
                  '%s yields only items of the expected form: %s' % (what, cutstr(show(e.args[1]))), loc=e.loc)
        q = lambda e: e in good
        neg = []
        for nm, pos, ng in conds:
            ck.hold(site, h.only_if(q, pos), '%s yields an item only if %s' % (what, nm))
            neg += aslist(ng)
        ck.hold(site, h.foreach(src, q, unless=neg), '%s yields every item that qualifies' % what)
    return g0, gs


def multimap(ck, g, site, place, key, item, what=''):
    """events that put `item` under `key` of the map of sets at `place`; what is already there is kept.
    key: pattern(s) of the key; item: pattern(s) of the item"""
    key, item = aslist(key), aslist(item)
    out = []
    for e in g.events('add'):
        if e.dst.startswith(place + '['):
            if mf(e.args[1], item):
                k = e.dst[len(place) + 1:-1]
                ok = any(pat(x).match(k) for x in key) or bool(e.dst.keys) and mf(e.dst.keys[-1], key)
                ck.ob(site, ok, '%s: %s is stored under its own key: %s' % (what, show(e.args[1]), k), loc=e.loc)
                out.append(e)
            else:
                ck.ob(site, False, '%s: only the item itself is stored: %s' % (what, cutstr(show(e.args[1]))), loc=e.loc)
        elif e.dst == place:
            k, v = field(e.args[1], '0'), field(e.args[1], '1')
            ck.ob(site, mf(k, key), '%s: %s is stored under its own key: %s' % (what, cutstr(show(v)), show(k)), loc=e.loc)
            base, its = v, []
            while base.op == 'upd':
                its += [x[1] for x in base.a[1] if x[0] == 'add']
                base = base.a[0]
            fresh = show(base).startswith(('empty<', 'default'))
            if fresh:
                ck.hold(site, g.only_if(lambda z: z is e, ['get(*) is None', 'Confined::remove(*) is None']),
                        '%s: a fresh set is stored only if there was none' % what, loc=e.loc)
            else:
                ck.ob(site, base.op in ('call', 'pay') and 'get(' in show(base), '%s: known items are kept: %s' % (what, cutstr(show(v))), loc=e.loc)
            if its:
                ck.ob(site, all(mf(x, item) for x in its), '%s: only the item itself is stored' % what, loc=e.loc)
                out.append(e)
    for e in g.events(['remove', 'clear', 'retain']):
        if e.dst == place or e.dst.startswith(place + '['):
            ck.hold(site, follows(g, e, lambda z: z in out), '%s: a removed entry is stored again' % what, loc=e.loc)
    ck.ob(site, bool(out), '%s is stored' % what)
    return out


def follows(g, ev, via, unless=(), target=None):
    """every path from event `ev` to a success passes `via`"""
    q = evp(via)
    for n in g.nodes:
        if ev in n.events:
            i = n.events.index(ev)
            if any(q(e) for e in n.events[i + 1:]):
                continue
            p = g.reach([t for t, _ in n.succ], target or g._okt(), q, (lambda l: lm(l, unless)) if unless else None)
            if p:
                return False, g.describe(p)
    return True, None


def eqs(a, b):
    """the two values are equal / are not"""
    l = ['(%s == %s)' % (a, b), '(%s == %s)' % (b, a)]
    return l, ['!' + x for x in l]


def known(coll, key):
    """the key is in the set or map / is not"""
    return ['get(%s, %s) is Some' % (coll, key), 'contains(%s, %s)' % (coll, key)], \
           ['get(%s, %s) is None' % (coll, key), '!contains(%s, %s)' % (coll, key)]


def report(ck, S, g, item, conds, src=None, outer=None, excuse=(), what=None):
    """a problem is reported exactly if all conditions (pairs of edges: holds, does not hold) hold for an element of `src`
    (an inner collection of the elements of `outer`, absent if `excuse`)"""
    what = what or aslist(item)[0].split('(')[0]
    q = lambda e: e.name == 'add' and m(e.args[-1], item)
    ck.ob(S, any(q(e) for e in g.events('add')), '%s is reported' % what)
    isret = lambda n, e: e is None and n.ret is not None
    hit = lambda n, e: e is not None and q(e)
    nx = ['next ' + s for s in aslist(src)] if src else []
    en = ['end ' + s for s in aslist(src)] if src else []
    starts = [t for _, t, _ in g.edges(nx)] if src else [g.a.entry]
    ck.ob(S, bool(starts), '%s is looked for' % what)
    negs = []
    for pos, neg in conds:
        negs += neg
        w = g.reach(starts, hit, None, lambda l: lm(l, pos))
        ck.ob(S, w is None, '%s is reported only if %s' % (what, ' or '.join(pos)), w and g.describe(w))
        off = [l for l in neg if l not in pos]
        w = g.reach([t for _, t, _ in g.edges(off)], hit, None, lambda l: lm(l, nx) or lm(l, pos))
        ck.ob(S, w is None, '%s is not reported if %s' % (what, ' or '.join(off)), w and g.describe(w))
    if not src:
        w = g.reach(starts, isret, q, lambda l: lm(l, negs))
        ck.ob(S, w is None, '%s is always reported' % what, w and g.describe(w))
        return
    if not outer:
        ck.hold(S, g.foreach(src, q, unless=negs, complete=not excuse, target=isret), '%s is reported for every element' % what)
        if excuse:
            w = g.reach([g.a.entry], isret, None, lambda l: lm(l, en) or lm(l, excuse))
            ck.ob(S, w is None, '%s is looked for in all elements' % what, w and g.describe(w))
        return
    ck.hold(S, g.foreach(src, q, unless=negs, complete=False, target=isret), '%s is reported for every element' % what)
    loops, good, wit = {}, set(), None
    for n, t, l in g.edges(['next ' + outer, 'end ' + outer]):
        loops.setdefault((n.frame.id, n.block), []).append((n, t, l))
    for es in loops.values():
        heads = {n.id for n, _, _ in es}
        on = [t for n, t, l in es if any(lm(x, ['next ' + outer]) for x in l)]
        w = g.reach(on, lambda n, e: e is None and (n.ret is not None or n.id in heads), None, lambda l: lm(l, en) or lm(l, excuse))
        if w is None and on:
            good |= heads
        else:
            wit = wit or w
    ends = {(n.id, t.id) for n, t, l in g.edges(['end ' + outer]) if n.id in good}
    w = g.reach([g.a.entry], isret, None, None, cut_step=lambda n, t: (n.id, t.id) in ends)
    ck.ob(S, w is None, '%s is looked for in every element of %s' % (what, outer), w and g.describe(wit or w))


def verdict(ck, S, g, adt, items):
    """problems found are all returned; success if and only if there are none"""
    items = [aslist(i) for i in items]
    ops = lambda t: [o[1] for o in t.a[1] if o[0] == 'add'] if t.op == 'upd' else []
    same = lambda a, i: m(a, i) or show(a).replace('hole<>+<', 'empty<>+<') in i
    known = lambda a: any(same(a, i) for i in items)
    part = lambda t: t.op == 'empty' or t.op == 'upd' and t.a[0].op == 'empty' and all(known(a) for o in ops(t) for a in alts(o))
    has = lambda t, i: any(same(a, i) for x in subterms(t) for o in ops(x) for a in alts(o))
    for e in g.events('add'):
        for a in alts(e.args[-1]):
            if a.op == 'agg' and show(a).startswith(adt + '::'):
                ck.ob(S, any(m(a, i) for i in items), 'the problem reported is a known one: %s' % cutstr(show(a)), loc=e.loc)
    size = lambda l, v: l[0] == 'b' and l[2] is v and m(l[1], '(0 == len(*') and any(part(x) for x in subterms(l[1]))
    none, some = lambda l: size(l, True), lambda l: size(l, False)
    ck.ob(S, bool(g.edges(none)), 'the list of problems decides')
    ck.hold(S, g.ret_only_if('Result::Ok(*', none), 'success means that there are no problems')
    ck.hold(S, g.ret_only_if('Result::Err(*', some), 'failure means that there are problems')
    errs = [(n, r) for n, r in g.rets() if r.op == 'agg' and r.a[1] == 'Err']
    ck.ob(S, bool(errs), 'problems are returned')
    for n, r in errs:
        ck.ob(S, all(part(x) for x in alts(field(r, '0'))), 'the list of problems is returned: %s' % cutstr(show(r)))
    for i in items:
        name = i[0].split('(')[0]
        at = [e.node for e in g.events('add') if m(e.args[-1], i)]
        lost = lambda n, e: e is None and n.ret is not None and not (n.ret.op == 'agg' and n.ret.a[1] == 'Err' and has(n.ret, i))
        w = g.reach(at, lost, None, lambda l: none(l) and has(l[1], i))
        ck.ob(S, bool(at) and w is None, 'once found, %s is returned' % name, w and g.describe(w))
