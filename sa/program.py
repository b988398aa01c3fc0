"""Program representation built from the extractor's facts."""
import re
from terms import *


class AnchorError(Exception):
    """a function/type the rules are anchored on is missing or ambiguous"""


class Fn:
    pass


def split_generics(s):
    """'A<B, C<D>>' -> ('A', ['B', 'C<D>'])"""
    i = s.find('<')
    if i < 0 or not s.endswith('>'):
        return s, []
    out, d, cur = [], 0, ''
    for c in s[i + 1:-1]:
        if c in '<([':
            d += 1
        elif c in '>)]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return s[:i], out


def strip_path(p):
    """remove generic arguments from a printed path"""
    out, d, i = '', 0, 0
    while i < len(p):
        c = p[i]
        if c == '<':
            if d == 0 and p.startswith('<impl ', i):
                # `<impl [T]>` / `<impl u64>`: keep the type head
                j, dd = i, 0
                while j < len(p):
                    if p[j] == '<':
                        dd += 1
                    elif p[j] == '>' and p[j - 1] != '-':
                        dd -= 1
                        if dd == 0:
                            break
                    j += 1
                body = p[i + 6:j]
                if ' for ' in body:
                    body = body.split(' for ', 1)[1]
                body = body.strip()
                if body.startswith('['):
                    body = 'slice' if ';' not in body else 'array'
                body = body.split('<')[0].split('::')[-1].strip('&')
                out += body
                i = j + 1
                continue
            d += 1
        elif c == '>' and i > 0 and p[i - 1] != '-':
            d -= 1
        elif d == 0:
            out += c
        i += 1
    while '::::' in out:
        out = out.replace('::::', '::')
    return out


def last2(p):
    s = [x for x in strip_path(p).split('::') if x]
    return '::'.join(s[-2:])


def conv_place(p):
    loc = p[0]
    steps = []
    var = None
    for s in p[1:]:
        if s == '*':
            steps.append('*')
        elif s == '?':
            steps.append(('?',))
        elif s[0] == 'v':
            var = s[2]
            continue
        elif s[0] == 'f':
            if var is not None:
                steps.append(('p', var, s[2]))
            else:
                steps.append(('f', s[2]))
        elif s[0] == 'i':
            steps.append(('il', s[1]))
        elif s[0] == 'c':
            steps.append(('c', s[1], s[2]))
        elif s[0] == 's':
            steps.append(('s', s[1], s[2], s[3]))
        var = None
    return (loc, tuple(steps))


def conv_op(o):
    if o[0] in ('c', 'm'):
        return (o[0], conv_place(o[1]))
    if o[0] == 'ptr':
        return ('ptr', conv_op(o[1]))
    return ('k', o[1])


def conv_rv(r):
    k = r[0]
    if k == 'use':
        return ('use', conv_op(r[1]))
    if k == 'repeat':
        return ('repeat', conv_op(r[1]), r[2])
    if k == 'ref':
        return ('ref', r[1], conv_place(r[2]))
    if k == 'cast':
        return ('cast', r[1], conv_op(r[2]), r[3])
    if k == 'bin':
        return ('bin', r[1], conv_op(r[2]), conv_op(r[3]))
    if k == 'un':
        return ('un', r[1], conv_op(r[2]))
    if k == 'discr':
        return ('discr', conv_place(r[1]), r[2])
    if k == 'agg':
        return ('agg', r[1], tuple(conv_op(o) for o in r[2]))
    return ('other', r)


def place_uses(pl, out):
    out.add(pl[0])
    for s in pl[1]:
        if s != '*' and s[0] == 'il':
            out.add(s[1])


def op_uses(o, out):
    if o[0] in ('c', 'm'):
        place_uses(o[1], out)
    elif o[0] == 'ptr':
        op_uses(o[1], out)


def rv_uses(r, out):
    k = r[0]
    if k in ('use', 'repeat'):
        op_uses(r[1], out)
    elif k == 'ref':
        place_uses(r[2], out)
    elif k == 'cast':
        op_uses(r[2], out)
    elif k == 'bin':
        op_uses(r[2], out)
        op_uses(r[3], out)
    elif k == 'un':
        op_uses(r[2], out)
    elif k == 'discr':
        place_uses(r[1], out)
    elif k == 'agg':
        for o in r[2]:
            op_uses(o, out)


class Body:
    def __init__(self, j):
        self.argc = j['argc']
        self.locals = j['locals']
        self.names = {int(k): v for k, v in j['names'].items()}
        self.blocks = []
        for sts, t, cleanup in j['blocks']:
            ss = []
            for s in sts:
                if s[0] == '=':
                    ss.append(('=', conv_place(s[1]), conv_rv(s[2]), s[3]))
                else:
                    ss.append(('setd', conv_place(s[1]), s[2]))
            k = t[0]
            if k == 'switch':
                tt = ('switch', conv_op(t[1]), [(int(a), b) for a, b in t[2]], t[3], t[4], t[5])
            elif k == 'call':
                tt = ('call', conv_op(t[1]), [conv_op(x) for x in t[2]], conv_place(t[3]), t[4], t[5],
                      t[6], t[7])
            elif k == 'drop':
                tt = ('goto', t[2])
            elif k == 'assert':
                tt = ('assert', conv_op(t[1]), t[2], t[3], t[4])
            else:
                tt = tuple(t)
            self.blocks.append((ss, tt, cleanup, k == 'drop'))
        self._dropflags()
        self._live = None
        self._heads = None

    def heads(self):
        """targets of back edges"""
        if self._heads is None:
            out, seen, on = set(), {0}, {0}
            st = [(0, iter(self.succs(self.blocks[0][1])))]
            while st:
                b, it = st[-1]
                for x in it:
                    if x in on:
                        out.add(x)
                    elif x not in seen:
                        seen.add(x)
                        on.add(x)
                        st.append((x, iter(self.succs(self.blocks[x][1]))))
                        break
                else:
                    on.discard(b)
                    st.pop()
            self._heads = out
        return self._heads

    def succs(self, t):
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [b for _, b in t[2]] + [t[3]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[3]]
        return []

    def _dropflags(self):
        # bool temporaries assigned only constants that merely decide whether to drop
        cand = {}
        for ss, t, c, _ in self.blocks:
            for s in ss:
                if s[0] == '=' and not s[1][1]:
                    l = s[1][0]
                    okc = s[2][0] == 'use' and s[2][1][0] == 'k' and s[2][1][1].get('k') == 'int'
                    cand[l] = cand.get(l, True) and okc and self.locals[l] == 'bool' and l not in self.names \
                        and l > self.argc
            if t[0] == 'call':
                cand[t[3][0]] = False

        def joins(b, to):
            # block b only drops values and then goes on to block `to`
            seen = set()
            while b != to:
                ss, t, c, isdrop = self.blocks[b]
                if b in seen or not (isdrop or not ss) or t[0] != 'goto' \
                        or any(s[0] == '=' and (s[1][1] or not cand.get(s[1][0])) for s in ss):
                    return False
                seen.add(b)
                b = t[1]
            return bool(seen)
        more = True
        while more:
            more = False
            for i, (ss, t, c, d) in enumerate(self.blocks):
                if t[0] == 'switch' and t[1][0] in ('c', 'm') and not t[1][1][1] and cand.get(t[1][1][0]):
                    tg = sorted({b for _, b in t[2]} | {t[3]})
                    if len(tg) == 2:
                        for x, y in (tg, tg[::-1]):
                            if joins(x, y):
                                self.blocks[i] = (ss, ('goto', y), c, False)
                                more = True
                                break
        # remove the flag assignments themselves
        used = set()
        for ss, t, c, _ in self.blocks:
            for s in ss:
                if s[0] == '=':
                    rv_uses(s[2], used)
                    if s[1][1]:
                        place_uses(s[1], used)
            if t[0] == 'switch':
                op_uses(t[1], used)
            elif t[0] == 'call':
                op_uses(t[1], used)
                for o in t[2]:
                    op_uses(o, used)
            elif t[0] == 'assert':
                op_uses(t[1], used)
        for i, (ss, t, c, d) in enumerate(self.blocks):
            self.blocks[i] = ([s for s in ss if not (s[0] == '=' and not s[1][1] and cand.get(s[1][0])
                                                     and s[1][0] not in used)], t, c, d)

    def live(self):
        """live-in locals per block; locals borrowed mutably stay live"""
        if self._live is not None:
            return self._live
        n = len(self.blocks)
        gen, kill = [], []
        pinned = {0}
        for ss, t, c, _ in self.blocks:
            g, k = set(), set()
            for s in ss:
                u = set()
                if s[0] == '=':
                    rv_uses(s[2], u)
                    if s[1][1]:
                        place_uses(s[1], u)
                    if s[2][0] == 'ref' and s[2][1] != 'shared' and '*' not in s[2][2][1]:
                        pinned.add(s[2][2][0])
                else:
                    place_uses(s[1], u)
                g |= u - k
                if s[0] == '=' and not s[1][1]:
                    k.add(s[1][0])
            u = set()
            if t[0] == 'switch':
                op_uses(t[1], u)
            elif t[0] == 'assert':
                op_uses(t[1], u)
            elif t[0] == 'call':
                op_uses(t[1], u)
                for o in t[2]:
                    op_uses(o, u)
                if t[3][1]:
                    place_uses(t[3], u)
            elif t[0] == 'return':
                u.add(0)
            g |= u - k
            if t[0] == 'call' and not t[3][1]:
                k.add(t[3][0])
            gen.append(g)
            kill.append(k)
        live = [set(g) for g in gen]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for b in self.succs(self.blocks[i][1]):
                    o |= live[b]
                # note: a call's destination is defined on the edge
                new = gen[i] | (o - kill[i])
                if new != live[i]:
                    live[i] = new
                    ch = True
        self._live = [l | pinned for l in live]
        return self._live


class Program:
    def __init__(self, facts):
        self.fns = {}
        self.by_name = {}
        self.adts = {}
        self.models = {}
        self.impls = []
        self.consts = {}
        for c, f in facts.items():
            for k, a in f['adts'].items():
                if a is not None:
                    self.adts.setdefault(k, a)
            if c != 'models':
                self.impls += [dict(i, crate=c) for i in f['impls']]
            for j in f['fns']:
                fn = Fn()
                fn.j = j
                fn.crate = c
                fn.h = j['h']
                fn.path = j['path']
                fn.kind = j['kind']
                fn.name = j.get('name', '')
                fn.selfadt = j.get('selfadt')
                fn.selfty = j.get('self')
                fn.trait = j.get('trait')
                fn.traitref = j.get('traitref')
                fn.derived = j.get('derived', False)
                fn.loc = j['loc']
                fn.vis = j.get('vis')
                fn.exported = j.get('exported')
                fn._body = None
                if c == 'models':
                    self.models[fn.name] = fn
                self.fns[fn.h] = fn
                if fn.kind == 'fn':
                    self.by_name.setdefault(fn.name, []).append(fn)
        self.variants = {}
        for k, a in self.adts.items():
            if a['kind'] == 'enum':
                self.variants[k] = [(v['name'], int(v['discr'])) for v in a['variants']]

    def body(self, fn):
        if fn._body is None:
            fn._body = Body(fn.j)
        return fn._body

    def short(self, fn):
        if fn.trait:
            return short(fn.trait) + '::' + fn.name
        if fn.selfadt:
            return short(fn.selfadt) + '::' + fn.name
        return fn.name if fn.kind == 'fn' else last2(fn.path)

    def find(self, name, self_=None, trait=None, crate=None, all=False, selfty=None, traitref=None,
             intrait=None):
        """functions called `name` on the given data type / trait"""
        r = []
        for fn in self.by_name.get(name, []):
            if fn.crate == 'models':
                continue
            if crate and fn.crate != crate:
                continue
            if self_ is not None:
                if fn.selfadt is None or short(fn.selfadt) != self_:
                    continue
            if selfty is not None and selfty not in (fn.selfty or ''):
                continue
            if trait is not None:
                if fn.trait is None or short(fn.trait) != trait:
                    continue
            elif fn.trait is not None and trait is None and self_ is not None:
                # prefer inherent methods
                if any(x.trait is None and x.selfadt and short(x.selfadt) == self_
                       for x in self.by_name[name]):
                    continue
            if traitref is not None and traitref not in (fn.traitref or ''):
                continue
            if intrait is not None and short(fn.j.get('intrait') or '') != intrait:
                continue
            r.append(fn)
        if all:
            return r
        if len(r) != 1:
            raise AnchorError('expected exactly one function %s (type %s, trait %s, %s), found %d: %s' % (
                name, self_ or selfty, trait, traitref or '', len(r), [f.path for f in r][:6]))
        return r[0]

    def adt(self, name, crate=None):
        r = [k for k in self.adts if k.rsplit('::', 1)[-1] == name and
             (crate is None or k.startswith(crate + '::'))]
        if len(r) != 1:
            raise AnchorError('expected exactly one type %s, found %s' % (name, r[:6]))
        return r[0]

    def closures_of(self, fn):
        return [f for f in self.fns.values() if f.kind == 'closure' and f.j.get('hparent') == fn.h]

    OWN = ('rgbstd', 'rgbinvoice')

    def owner(self, fn):
        """the named function a closure belongs to"""
        while fn.kind == 'closure' and fn.j.get('hparent') in self.fns:
            fn = self.fns[fn.j['hparent']]
        return fn

    def aggs_of(self, adt, crates=OWN):
        """functions (closures count for their owner) that build a value of the type field by field"""
        out = {}
        for fn in self.fns.values():
            if fn.crate not in crates:
                continue
            for sts, t, cl in fn.j['blocks']:
                if any(s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1] == adt for s in sts):
                    o = self.owner(fn)
                    out[o.h] = o
                    break
        return list(out.values())

    def users(self, fn, crates=OWN):
        """functions (closures count for their owner) that mention the function"""
        out = {}
        for f in self.fns.values():
            if f.crate in crates and repr(fn.h) in repr(f.j['blocks']):
                o = self.owner(f)
                out[o.h] = o
        return list(out.values())
