"""Path-partitioned forward dataflow over MIR with inlining.

For a root function the engine builds an exploded control-flow graph whose nodes
are (inlining context, basic block, partition); the partition is the finite set
of enum variants / booleans currently known for live locals.  Each node carries
value terms for memory and the set of conditions that hold on every path to it;
each edge carries the conditions learned on it.  Paths are merged (joined) at
every node: nothing is executed and no solver is involved.
"""
import collections
import heapq
from terms import *
from program import *

CF = 'core::ops::control_flow::ControlFlow'
M = 'models::'

MODEL = {}
for _t in ('map', 'and_then', 'or_else', 'or', 'and', 'ok_or', 'ok_or_else', 'unwrap_or', 'unwrap_or_else',
           'unwrap_or_default', 'map_or', 'map_or_else', 'filter', 'is_some_and', 'is_none_or', 'inspect',
           'transpose', 'flatten', 'zip', 'take', 'get_or_insert_with'):
    MODEL['Option::' + _t] = 'option_' + _t
for _t in ('map', 'map_err', 'and_then', 'and', 'or_else', 'or', 'ok', 'err', 'unwrap_or', 'unwrap_or_else',
           'unwrap_or_default', 'map_or', 'map_or_else', 'is_ok_and', 'is_err_and', 'inspect', 'inspect_err',
           'transpose', 'flatten', 'expect_err'):
    MODEL['Result::' + _t] = 'result_' + _t
for _t in ('then', 'then_with', 'is_eq', 'is_ne'):
    MODEL['Ordering::' + _t] = 'ordering_' + _t
MODEL['bool::then'] = 'bool_then'
MODEL['bool::then_some'] = 'bool_then_some'
MODEL['Result::unwrap_err'] = 'result_expect_err'
MODEL['Entry::and_modify'] = 'entry_and_modify'
MODEL['Entry::or_insert'] = 'entry_or_insert'
MODEL['Entry::or_insert_with'] = 'entry_or_insert_with'
MODEL['Entry::or_default'] = 'entry_or_default'
for _t in ('for_each', 'try_for_each', 'fold', 'any', 'all', 'find', 'find_map', 'position', 'rposition', 'partition', 'unzip'):
    MODEL['Iterator::' + _t] = 'iter_' + _t
ADAPT = {'map': ('Map', 'f'), 'filter': ('Filter', 'f'), 'filter_map': ('FilterMap', 'f'),
         'inspect': ('Inspect', 'f'), 'take_while': ('TakeWhile', 'f'), 'map_while': ('MapWhile', 'f')}
NEXT = {M + 'Map': 'map_next', M + 'Filter': 'filter_next', M + 'FilterMap': 'filtermap_next',
        M + 'Inspect': 'inspect_next', M + 'TakeWhile': 'takewhile_next', M + 'MapWhile': 'mapwhile_next',
        M + 'FlatMap': 'flatmap_next', M + 'Flatten': 'flatten_next', M + 'Chain': 'chain_next',
        M + 'Zip': 'zip_next', M + 'Enumerate': 'enumerate_next', M + 'OptIter': 'optiter_next'}

COLL = {'BTreeMap', 'BTreeSet', 'HashMap', 'HashSet', 'Vec', 'VecDeque', 'Confined', 'slice', 'IndexMap',
        'IndexSet', 'array'}
STRS = {'String', 'str'}
IDENT = {'Clone::clone', 'Deref::deref', 'Borrow::borrow', 'AsRef::as_ref', 'ToOwned::to_owned',
         'Option::as_ref', 'Option::cloned', 'Option::copied', 'Option::as_deref', 'Result::as_ref',
         'Result::cloned', 'Result::copied', 'Box::new', 'Rc::new', 'Arc::new',
         'Iterator::cloned', 'Iterator::copied', 'Iterator::rev', 'Iterator::by_ref', 'Iterator::fuse',
         'Iterator::peekable', 'Confined::release', 'Confined::as_unconfined', 'Confined::unbox',
         'Confined::from_checked', 'Confined::to_unconfined', 'Confined::into_inner',
         'String::as_str', 'str::as_str', 'hint::must_use', 'Vec::as_slice', 'slice::to_vec', 'slice::into_vec',
         'Wrapper::into_inner', 'Wrapper::from_inner', 'Wrapper::as_inner', 'Wrapper::to_inner',
         'Cow::into_owned', 'hint::black_box', 'Vec::into_boxed_slice', 'BorrowMut::borrow_mut',
         'DerefMut::deref_mut', 'AsMut::as_mut', 'Vec::as_mut_slice', 'Wrapper::as_inner_mut', 'WrapperMut::as_inner_mut',
         'CloneNoPersistence::clone_no_persistence', 'Array::from_array', 'Array::from_inner',
         'RString::as_str', 'VariantName::as_str', 'FieldName::as_str', 'TypeName::as_str', 'AsciiStr::as_str',
         'AsciiString::as_str', 'Ident::as_str', 'EStr::as_str', 'str::as_bytes', 'String::as_bytes',
         'String::from_utf8_lossy', 'Iterator::into_iter'}
ADAPT_SELF = {'iter', 'into_iter', 'iter_mut', 'drain', 'into_values', 'values', 'keys', 'into_keys', 'values_mut'}


class Limit(Exception):
    """the analysis exceeded its size bound (fail closed)"""


class Event:
    __slots__ = ('kind', 'name', 'args', 'res', 'loc', 'node', 'fn', 'info', 'facts', 'ix', 'ty', 'dst')

    def __repr__(self):
        return '%s %s(%s)%s' % (self.kind, self.name, ', '.join(show(a) for a in self.args),
                                ' -> ' + show(self.res) if self.res is not None else '')


class Frame:
    __slots__ = ('id', 'parent', 'pblock', 'fn', 'body', 'dest', 'target', 'depth', 'stack', 'post', 'site')


class Place(str):
    keys = ()


class Node:
    __slots__ = ('id', 'key', 'frame', 'block', 'env', 'facts', 'events', 'succ', 'visits', 'ret', 'inn', 'hist')

    def __lt__(self, o):
        return self.id < o.id

    def __repr__(self):
        return 'n%d<%s bb%d>' % (self.id, self.frame.fn.path.split('::')[-1], self.block)


def conv_name(ty):
    h, _ = split_generics(ty.strip('&').strip())
    return h.split('::')[-1]


def is_boolish(t):
    return t.op in ('bool', 'not', 'isvar', 'eq', 'lt', 'and', 'or') or \
        (t.op == 'call' and t.ty == 'bool') or (t.ty == 'bool')


class Analysis:
    def __init__(self, prog, root, stop=None, max_nodes=30000, max_depth=40, argterms=None, inline_derived=(),
                 max_visits=60, caps=None, fresh=None, fluent=None, until=None, split=None, sums=False, tag=None, bare=False):
        self.p = prog
        self.root = root
        self.stop = stop or (lambda fn: False)
        self.bare = bare
        self.fresh = fresh or (lambda fn: False)
        self.fluent = fluent or (lambda fn: False)
        self.until = until or (lambda fn: False)
        self.split = split      # conditions (edge labels) whose outcomes are kept apart for the rest of the path
        self.sums = sums        # additions are kept as `sum#site` mutations of the initial value
        self.tag = tag          # items whose additions to collections are kept apart per call site
        self.sites = {}
        self.max_nodes = max_nodes
        self.max_depth = max_depth
        self.max_visits = max_visits
        self.acc_visits = max_visits // 2
        self.frames = {}
        self.framelist = []
        self.nodes = {}
        self.work = []
        self.inwork = set()
        self.fninfo = prog.__dict__.setdefault('fninfo', [])  # shared: terms may move between analyses
        self.fnkey = prog.__dict__.setdefault('fnkey', {})
        self.inlined = set()
        self.ptr_origin = {}
        self.promo = {}
        self.argterms = argterms
        self.widened = 0
        self.coarse = 0
        self.parts = {}
        self.caps = (caps or (24, 48)) + (1 << 30,)
        self.entry = None

    # ---- frames -----------------------------------------------------------
    def frame(self, parent, pblock, fn, dest, target, tag=0, site=None):
        k = (parent.id if parent else -1, pblock, fn.h, tag)
        f = self.frames.get(k)
        if f is None:
            f = Frame()
            f.id = len(self.framelist)
            f.parent = parent
            f.pblock = pblock
            f.fn = fn
            f.body = self.p.body(fn)
            f.dest = dest
            f.target = target
            f.depth = (parent.depth + 1) if parent else 0
            f.stack = (parent.stack if parent else ()) + (fn.h,)
            f.site = site
            self.frames[k] = f
            self.framelist.append(f)
            self.inlined.add(fn.h)
        return f

    def site(self, name, n):
        s = self.sites.setdefault(name, {})
        return '%s#%d' % (name, s.setdefault((n.frame.id, n.block), len(s)))

    # ---- memory -------------------------------------------------------------
    def rd(self, env, root, path):
        v = env.get(root)
        if v is None:
            v = root[1] if root[0] == 'T' else top('uninit')
        for s in path:
            if s[0] in ('mm', 'vm'):
                continue
            v = proj(v, s)
        return v

    def deref(self, env, v):
        if v.op == 'ref':
            return self.rd(env, v.a[0], v.a[1])
        return env.get(('T', v), v)

    def step(self, env, fr, s):
        if s[0] == 'il':
            return ('i', env.get((fr.id, s[1]), top()))
        if s[0] == 'c':
            return ('i', cint(s[1]) if not s[2] else mk('fromend', s[1]))
        return s

    def read(self, env, fr, pl):
        v = env.get((fr.id, pl[0]))
        if v is None:
            v = top('uninit')
        for s in pl[1]:
            if s == '*':
                v = self.deref(env, v)
            else:
                if v.op == 'ref':
                    v = self.deref(env, v)
                s = self.step(env, fr, s)
                v = proj(v, s)
        return v

    def resolve(self, env, fr, pl):
        root, path = (fr.id, pl[0]), ()
        for s in pl[1]:
            if s == '*':
                v = self.rd(env, root, path)
                if v.op == 'ref':
                    root, path = v.a
                else:
                    root, path = ('T', v), ()
            else:
                s = self.step(env, fr, s)
                if s[0] == 'i':
                    base = self.rd(env, root, path)
                    r = index(base, s[1])
                    if r is elem(base):
                        s = ('e',)
                v = None
                path = path + (s,)
        return root, path

    def wr(self, env, root, path, v, ev=None):
        if not path:
            env[root] = v
        else:
            path = tuple(s for s in path if s[0] not in ('mm', 'vm'))
            b = env.get(root)
            if b is None:
                b = root[1] if root[0] == 'T' else top('uninit')
            env[root] = setpath(b, path, v)
        if root[0] == 'T':
            if ev is not None:
                ev(root[1], path, v)
            self.touch(env, root[1], ('store', v))

    def place(self, ref):
        """printed form of the place a mutable reference denotes"""
        if ref.op != 'ref':
            return Place(show(ref))
        root, path = ref.a
        r = Place((show(root[1]) if root[0] == 'T' else '_') + showpath(path))
        r.keys = [x for s in path for x in s if isinstance(x, Term)]
        return r

    def touch(self, env, t, how):
        """a value reached through pointer t was changed: update what t points into"""
        n = 0
        while t is not None and n < 12:
            o = self.ptr_origin.get(t)
            if o is not None:
                root, path = o
                if root in env or root[0] == 'T':
                    old = self.rd(env, root, path)
                    new = upd(old, how[0], how[1:])
                    if new is not old:
                        if path:
                            b = env.get(root, root[1] if root[0] == 'T' else top())
                            env[root] = setpath(b, tuple(s for s in path if s[0] not in ('mm', 'vm')), new)
                        else:
                            env[root] = new
                return
            if t.op in ('field', 'pay', 'elem', 'index', 'proj'):
                t = t.a[0]
            elif t.op == 'call' and len(t.a) > 1:
                t = t.a[1]
            else:
                return
            n += 1

    def mutate(self, env, v, name, args):
        """opaque mutation through a mutable reference value v"""
        if v.op == 'ref':
            root, path = v.a
            old = self.rd(env, root, path)
            self.wr(env, root, path, upd(old, name, args))
        else:
            old = env.get(('T', v), v)
            env[('T', v)] = upd(old, name, args)
            self.touch(env, v, ('via', mk('call', name, v, *args)))

    def val(self, env, v):
        """snapshot of a value: look through mutable references"""
        n = 0
        while v.op == 'ref' and n < 5:
            v = self.rd(env, v.a[0], v.a[1])
            n += 1
        if n == 0 and v.op != 'ref':
            o = env.get(('T', v))
            if o is not None:
                return o
        return v

    # ---- constants ------------------------------------------------------------
    def const(self, k):
        kk = k.get('k')
        if kk == 'int':
            if k.get('ty') == 'bool':
                return cbool(k['v'])
            return cint(k['v'])
        if kk == 'str':
            return cstr(k['v'])
        if kk == 'bytesref':
            v = k['v']
            if v.get('k') == 'str':
                return mk('bytes', tuple(v['v'].encode()))
            return mk('bytes', tuple(v['v']))
        if kk == 'fn':
            if 'ctor' in k:
                pass
            key = (k['def'], tuple(k['args']), k.get('res'))
            i = self.fnkey.get(key)
            if i is None:
                i = len(self.fninfo)
                self.fninfo.append(k)
                self.fnkey[key] = i
            return mk('fn', self.canon(k), i)
        if kk == 'closure':
            return agg('closure:' + k['def'], '', [])
        if kk == 'val':
            return self.constval(k['v'])
        if kk == 'promoted':
            return self.promoted(k)
        if kk == 'param':
            return mk('cparam', k['v'])
        t = mk('const', k.get('def') or str(k.get('v', kk)), k.get('ty', ''))
        t.ty = k.get('ty')
        return t

    def constval(self, v):
        if v is None:
            return top('const')
        if 'adt' not in v:
            return self.const(v)
        if v['adt'] is None:
            return agg('()' if True else '', '', [(str(i), self.constval(x)) for i, x in enumerate(v['fields'])]) \
                if v.get('adt') is None else None
        path, var = v['adt']
        a = self.p.adts.get(path)
        names = None
        en = False
        if a:
            en = a['kind'] == 'enum'
            for vv in a['variants']:
                if vv['name'] == var:
                    names = [f[0] for f in vv['fields']]
        fs = [self.constval(x) for x in v['fields']]
        if names is None or len(names) != len(fs):
            names = [str(i) for i in range(len(fs))]
        return agg(path, var if en else '', list(zip(names, fs)))

    def promoted(self, k):
        key = (k['def'], k['i'])
        if key in self.promo:
            return self.promo[key]
        self.promo[key] = top('promoted')
        fn = self.p.fns.get(k['def'])
        if fn is None:
            return top('promoted')
        b = Body(fn.j['promoted'][k['i']])
        f = Frame()
        f.id = -100 - len(self.promo)
        f.parent = None
        f.fn = fn
        f.body = b
        env = {}
        bl = 0
        for _ in range(50):
            ss, t, _, _ = b.blocks[bl]
            for s in ss:
                if s[0] == '=':
                    v = self.rvalue(env, f, s[2], None)
                    root, path = self.resolve(env, f, s[1])
                    self.wr(env, root, path, v)
            if t[0] in ('goto',):
                bl = t[1]
            elif t[0] == 'assert':
                bl = t[3]
            elif t[0] == 'call':
                # constant function in a promoted: keep it symbolic
                f2 = self.operand(env, f, t[1])
                args = [self.operand(env, f, o) for o in t[2]]
                r = mk('call', f2.a[0] if f2.op == 'fn' else '?', *args)
                root, path = self.resolve(env, f, t[3])
                self.wr(env, root, path, r)
                bl = t[4]
            else:
                break
        r = env.get((f.id, 0), top('promoted'))
        self.promo[key] = r
        return r

    def canon(self, k):
        if k.get('trait'):
            return short(k['trait']) + '::' + k['name']
        h = k.get('h')
        if h and h in self.p.fns:
            return self.p.short(self.p.fns[h])
        return last2(k['def'])

    # ---- values -------------------------------------------------------------
    def operand(self, env, fr, o):
        if o[0] == 'k':
            return self.const(o[1])
        if o[0] == 'ptr':
            return self.operand(env, fr, o[1])
        return self.read(env, fr, o[1])

    def cmp_eq(self, a, b):
        consts = ('int', 'bool', 'str', 'bytes')
        if a.op in consts and b.op in consts and a.op == b.op:
            return cbool(a is b)
        if a.op in consts or (a.op == 'agg' and b.op not in consts and b.op != 'agg') or \
                (a.op not in consts and a.op != 'agg' and b.op not in consts and b.op != 'agg' and b.id < a.id):
            a, b = b, a
        if b.op == 'bool':
            return a if b.a[0] else self.neg(a)
        if b.op == 'agg' and b.a[1] and not b.a[2]:
            return self.isvar(a, b.a[1], b.a[0])
        if a.op == 'agg' and b.op == 'agg' and a.a[0] == b.a[0]:
            if a.a[1] != b.a[1]:
                return FALSE
            if len(a.a[2]) == len(b.a[2]):
                r = [self.cmp_eq(x, y) for (_, x), (_, y) in zip(a.a[2], b.a[2])]
                if any(x is FALSE for x in r):
                    return FALSE
                r = [x for x in r if x is not TRUE]
                if not r:
                    return TRUE
                t = r[0]
                for x in r[1:]:
                    t = mk('and', t, x)
                return t
        if a.op == 'discr' and b.op == 'int':
            vs = self.p.variants.get(a.a[1])
            if vs:
                for n, d in vs:
                    if d == b.a[0]:
                        return self.isvar(a.a[0], n, a.a[1])
        if a.op == 'top' or b.op == 'top':
            return mk('eq', a, b)
        return mk('eq', a, b)

    def neg(self, t):
        if t.op == 'bool':
            return cbool(not t.a[0])
        if t.op == 'not':
            return t.a[0]
        return mk('not', t)

    def cmp_lt(self, a, b):
        if a.op == 'int' and b.op == 'int':
            return cbool(a.a[0] < b.a[0])
        # lengths compared with zero/one
        if a.op == 'int' and a.a[0] == 0 and b.op == 'call' and b.a[0] == 'len':
            return self.neg(self.cmp_eq(b, cint(0)))
        if b.op == 'int' and b.a[0] == 1 and a.op == 'call' and a.a[0] == 'len':
            return self.cmp_eq(a, cint(0))
        return mk('lt', a, b)

    def isvar(self, t, v, adt=None):
        if t.op == 'agg':
            return cbool(t.a[1] == v)
        if t.op == 'with' and t.a[0].op == 'agg':
            return cbool(t.a[0].a[1] == v)
        if t.op == 'phi' and all(x.op == 'agg' for x in t.a[0]):
            vs = {x.a[1] for x in t.a[0]}
            if v not in vs:
                return FALSE
            if vs == {v}:
                return TRUE
        if t.op == 'call' and t.a[0] == 'cmp':
            if v == 'Less':
                return self.cmp_lt(t.a[1], t.a[2])
            if v == 'Greater':
                return self.cmp_lt(t.a[2], t.a[1])
            return self.cmp_eq(t.a[1], t.a[2])
        return mk('isvar', t, v, adt or '')

    def binop(self, op, a, b):
        if op == 'Eq':
            return self.cmp_eq(a, b)
        if op == 'Ne':
            return self.neg(self.cmp_eq(a, b))
        if op == 'Lt':
            return self.cmp_lt(a, b)
        if op == 'Gt':
            return self.cmp_lt(b, a)
        if op == 'Le':
            return self.neg(self.cmp_lt(b, a))
        if op == 'Ge':
            return self.neg(self.cmp_lt(a, b))
        if op.endswith('WithOverflow'):
            return tup(self.binop(op[:-12], a, b), mk('ovf', op[:-12], a, b))
        if op.endswith('Unchecked'):
            op = op[:-9]
        if op in ('BitAnd', 'BitOr') and (is_boolish(a) or is_boolish(b)):
            return mk('and' if op == 'BitAnd' else 'or', a, b)
        if op == 'BitXor' and (is_boolish(a) or is_boolish(b)):
            if b.op == 'bool':
                return self.neg(a) if b.a[0] else a
            if a.op == 'bool':
                return self.neg(b) if a.a[0] else b
        if a.op == 'int' and b.op == 'int':
            try:
                x, y = a.a[0], b.a[0]
                if op == 'Add' and x + y < 2 ** 63:
                    return cint(x + y)
                if op == 'Sub' and x >= y:
                    return cint(x - y)
                if op == 'Mul' and x * y < 2 ** 63:
                    return cint(x * y)
            except Exception:
                pass
        if op in ('Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor') and (a.op == 'int' and b.op != 'int'):
            a, b = b, a
        return mk('bin', op, a, b)

    def rvalue(self, env, fr, r, ev):
        k = r[0]
        if k == 'use':
            return self.operand(env, fr, r[1])
        if k == 'ref':
            if r[1] == 'shared':
                v = self.read(env, fr, r[2])
                return v
            root, path = self.resolve(env, fr, r[2])
            return mk('ref', root, path)
        if k == 'discr':
            v = self.val(env, self.read(env, fr, r[1]))
            return self.discr(v, r[2])
        if k == 'agg':
            ak = r[1]
            ops = [self.operand(env, fr, o) for o in r[2]]
            if ak[0] == 'tuple':
                return tup(*ops)
            if ak[0] == 'array':
                return agg('[]', '', [(str(i), t) for i, t in enumerate(ops)])
            if ak[0] == 'adt':
                a = self.p.adts.get(ak[1])
                en = a and a['kind'] == 'enum'
                return agg(ak[1], ak[2] if en else '', list(zip(ak[4], ops)))
            if ak[0] == 'closure':
                fn = self.p.fns.get(ak[1])
                caps = fn.j.get('captures', []) if fn else []
                names = []
                for i in range(len(ops)):
                    names.append(caps[i] if i < len(caps) else str(i))
                return agg('closure:' + ak[1], '', list(zip(names, ops)))
            return top('agg')
        if k == 'bin':
            a = self.val(env, self.operand(env, fr, r[2]))
            b = self.val(env, self.operand(env, fr, r[3]))
            return self.binop(r[1], a, b)
        if k == 'un':
            a = self.operand(env, fr, r[2])
            if r[1] == 'Not':
                if is_boolish(a) or True:
                    return self.neg(a)
            if r[1] == 'PtrMetadata':
                return self.length(self.val(env, a))
            return mk('un', r[1], a)
        if k == 'cast':
            a = self.operand(env, fr, r[2])
            kind = r[1]
            if 'IntToInt' in kind or 'FloatToInt' in kind or 'IntToFloat' in kind:
                if a.op == 'int' and 0 <= a.a[0] < 128:
                    return a
                if a.op == 'discr':
                    return mk('cast', r[3], a)
                if a.op == 'bool':
                    return cint(1 if a.a[0] else 0)
                t = mk('cast', r[3], a)
                t.ty = r[3]
                return t
            return a
        if k == 'repeat':
            return mk('call', 'repeat', self.operand(env, fr, r[1]), cstr(str(r[2])))
        return top('rv')

    def discr(self, v, adt):
        if v.op == 'with' and v.a[0].op == 'agg':
            v = v.a[0]
        if v.op == 'agg':
            for n, d in self.p.variants.get(adt, ()):
                if n == v.a[1]:
                    return cint(d)
        return mk('discr', v, adt)

    def length(self, c):
        if c is EMPTY or c is DEFAULT:
            return cint(0)
        if c.op == 'agg' and c.a[0] == '[]':
            return cint(len(c.a[2]))
        if c.op == 'bytes':
            return cint(len(c.a[0]))
        return mk('call', 'len', c)

    # ---- conditions -----------------------------------------------------------
    def assume(self, facts, t, val):
        """-> list of new facts, or None if contradictory"""
        if t.op == 'bool':
            return [] if t.a[0] == val else None
        if t.op == 'not':
            return self.assume(facts, t.a[0], not val)
        if t.op == 'and' and val:
            a = self.assume(facts, t.a[0], True)
            if a is None:
                return None
            b = self.assume(facts | frozenset(a), t.a[1], True)
            return None if b is None else a + b
        if t.op == 'or' and not val:
            a = self.assume(facts, t.a[0], False)
            if a is None:
                return None
            b = self.assume(facts | frozenset(a), t.a[1], False)
            return None if b is None else a + b
        if t.op == 'isvar':
            return self.assume_var(facts, t.a[0], t.a[2], {t.a[1]}, val)
        if ('b', t, not val) in facts:
            return None
        out = [('b', t, val)]
        # equality with a constant excludes the others
        if t.op == 'eq' and val and t.a[1].op in ('int', 'str'):
            for f in facts:
                if f[0] == 'b' and f[2] and f[1].op == 'eq' and f[1].a[0] is t.a[0] and \
                        f[1].a[1].op == t.a[1].op and f[1].a[1] is not t.a[1]:
                    return None
        if t.op == 'lt' and val:
            if ('b', mk('lt', t.a[1], t.a[0]), True) in facts:
                return None
        return out

    def assume_var(self, facts, t, adt, vs, val):
        """t's variant is (val) / is not (not val) among vs"""
        allv = [n for n, _ in self.p.variants.get(adt, ())] or None
        if t.op == 'agg':
            return [] if (t.a[1] in vs) == val else None
        if t.op == 'phi' and all(x.op == 'agg' for x in t.a[0]):
            have = {x.a[1] for x in t.a[0]}
            if val and not (have & vs):
                return None
            if not val and not (have - vs):
                return None
        known = None
        excl = set()
        for f in facts:
            if f[1] is t:
                if f[0] == 'is':
                    known = f[2]
                elif f[0] == 'isnot':
                    excl |= set(f[2])
        if known is not None:
            return [] if (known in vs) == val else None
        if val:
            poss = vs - excl
        elif allv:
            poss = set(allv) - vs - excl
        else:
            poss = None
        if poss is not None:
            if not poss:
                return None
            if len(poss) == 1 and (allv or val):
                return [('is', t, next(iter(poss)))]
        if val:
            rest = frozenset(allv or ()) - poss
            return [('isnot', t, tuple(sorted(rest)))]
        return [('isnot', t, tuple(sorted(vs | excl)))]

    # ---- driver ---------------------------------------------------------------
    def run(self):
        fn = self.root
        f = self.frame(None, -1, fn, None, None)
        env = {}
        for i in range(1, f.body.argc + 1):
            if self.argterms and (i - 1) < len(self.argterms) and self.argterms[i - 1] is not None:
                t = self.argterms[i - 1]
            else:
                t = mk('param', i - 1, f.body.names.get(i, 'p%d' % (i - 1)))
                t.ty = f.body.locals[i]
            env[(0, i)] = t
        self.entry = self.goto(None, f, 0, env, frozenset(), ())
        steps = 0
        while self.work:
            _, n = heapq.heappop(self.work)
            self.inwork.discard(n.id)
            steps += 1
            if steps > self.max_nodes * 12:
                raise Limit('%s: no fixpoint after %d steps' % (self.root.path, steps))
            old = n.succ
            if not n.inn:
                # no longer reached
                n.succ = []
                n.events = []
                n.ret = None
                n.env = None
            else:
                if not self.merge(n) and n.visits:
                    continue
                self.exec(n)
            for i in range(len(old)):
                t = old[i][0]
                if i >= len(n.succ) or n.succ[i][0] is not t:
                    if t.inn.pop((n.id, i + 1), None) is not None:
                        self.push(t)
        self._prune()
        return self

    def goto(self, src, fr, bl, env, facts, label):
        live = fr.body.live()[bl]
        fid = fr.id
        env = {k: v for k, v in env.items() if k[0] != fid or k[1] in live}
        hist = src.hist if src is not None else frozenset()
        if self.split:
            hist = hist | frozenset(l for l in label if l not in hist and self.split(l))
        cnt = self.parts.get((fid, bl, hist), 0)
        key = None
        for lvl in (0, 1, 2):
            if lvl == 0 or lvl == 1:
                kk = []
                for k, v in env.items():
                    if lvl == 1 and k[0] != fid:
                        continue
                    s = shape(v)
                    if s is not None:
                        if lvl == 1 and isinstance(s, tuple):
                            s = s[0] if isinstance(s[0], str) else None
                        kk.append((k if not isinstance(k[1], Term) else ('T', k[1].id), s))
                key = (fid, bl, frozenset(kk) if lvl == 0 else (1, frozenset(kk)), hist)
            else:
                key = (fid, bl, None, hist)
            if key in self.nodes or cnt < self.caps[lvl]:
                break
            self.coarse += 1
        n = self.nodes.get(key)
        if n is None:
            if len(self.nodes) >= self.max_nodes:
                raise Limit('%s: more than %d nodes' % (self.root.path, self.max_nodes))
            n = Node()
            n.id = len(self.nodes)
            n.key = key
            n.frame = fr
            n.block = bl
            n.env = None
            n.facts = None
            n.inn = {}
            n.events = []
            n.succ = []
            n.visits = 0
            n.ret = None
            n.hist = hist
            self.nodes[key] = n
            self.parts[(fid, bl, hist)] = cnt + 1
        sid = src.id if src is not None else -1
        if src is not None:
            src.succ.append((n, tuple(label)))
            k = (sid, len(src.succ))
        else:
            k = (-1, 0)
        old = n.inn.get(k)
        if old is None or old[1] != facts or old[0] != env:
            n.inn[k] = (env, facts)
            self.push(n)
        return n

    def merge(self, n):
        """join of the contributions of all incoming edges; True if the state changed"""
        ins = [n.inn[k] for k in sorted(n.inn)]
        acc = n.block in n.frame.body.heads()
        env, facts = ins[0]
        if len(ins) > 1:
            env = dict(env)
            prev = n.env or {}
            for e2, f2 in ins[1:]:
                facts = facts & f2
                for k in list(env):
                    o = env[k]
                    v = e2.get(k)
                    if v is None:
                        if k[0] == 'T':
                            v = k[1]
                        else:
                            del env[k]
                            continue
                    if v is not o:
                        env[k] = join(o, v, prev.get(k), acc)
                for k, v in e2.items():
                    if k not in env and k[0] == 'T':
                        env[k] = join(k[1], v, prev.get(k), acc)
        if n.env is not None and n.visits > self.acc_visits:
            # no longer replace: accumulate so that the iteration terminates
            facts = facts & n.facts
            new = {}
            for k, v in env.items():
                o = n.env.get(k)
                if o is None:
                    if k[0] != 'T':
                        continue
                    o = k[1]
                if o is not v:
                    if n.visits > self.max_visits:
                        v = top('widen')
                        self.widened += 1
                    else:
                        v = join(o, v, o, acc)
                new[k] = v
            env = new
        if n.env is not None and facts == n.facts and env == n.env:
            return False
        n.env = env
        n.facts = facts
        return True

    def push(self, n):
        if n.id not in self.inwork:
            self.inwork.add(n.id)
            heapq.heappush(self.work, (n.id, n))

    def event(self, n, kind, name, args, res=None, loc=None, info=None, facts=None, ty=None, dst=None):
        e = Event()
        e.kind = kind
        e.name = name
        e.args = args
        e.res = res
        e.loc = loc
        e.node = n
        e.fn = n.frame.fn
        e.info = info
        e.facts = n.facts if facts is None else facts
        e.ix = len(n.events)
        e.ty = ty
        e.dst = dst
        n.events.append(e)
        return e

    def exec(self, n):
        n.visits += 1
        n.events = []
        n.succ = []
        n.ret = None
        fr = n.frame
        env = dict(n.env)
        facts = n.facts
        ss, t, _, _ = fr.body.blocks[n.block]
        for s in ss:
            if s[0] == '=':
                v = self.rvalue(env, fr, s[2], None)
                root, path = self.resolve(env, fr, s[1])
                loc = s[3]
                if s[2][0] == 'bin' and s[2][1].startswith('Add'):
                    self.event(n, 'incr', s[2][1], [self.operand(env, fr, x) for x in s[2][2:4]], None, loc)
                ks = [i for i, x in enumerate(path) if x[0] == 'k'] if root[0] != 'T' else ()
                if ks:
                    i = ks[-1]
                    self.event(n, 'put', showpath(path[i + 1:]), [self.rd(env, root, path[:i]), path[i][1], v], None, loc, path)
                self.wr(env, root, path, v,
                        lambda t_, p_, v_: self.event(n, 'store', showpath(p_), [t_, v_], None, loc, p_))
                if s[2][0] == 'agg' and s[2][1][0] == 'adt':
                    self.event(n, 'agg', s[2][1][1], [v], None, loc, s[2][1])
        k = t[0]
        if k == 'goto':
            self.goto(n, fr, t[1], env, facts, ())
        elif k == 'switch':
            self.switch(n, fr, t, env, facts)
        elif k == 'assert':
            if 'PointerDereference' in t[4]:
                self.goto(n, fr, t[3], env, facts, ())
                return
            c = self.operand(env, fr, t[1])
            self.event(n, 'assert', t[4], [c])
            a = self.assume(facts, c, t[2]) if c.op != 'ovf' and not (c.op == 'not' and c.a[0].op == 'ovf') else []
            if a is not None:
                self.goto(n, fr, t[3], env, facts | frozenset(a), a)
        elif k == 'return':
            self.ret(n, fr, env, facts)
        elif k == 'call':
            self.call(n, fr, t, env, facts)
        elif k in ('unreachable', 'resume'):
            pass
        else:
            self.event(n, 'other', str(k), [])

    def switch(self, n, fr, t, env, facts):
        v = self.val(env, self.operand(env, fr, t[1]))
        targets, oth = t[2], t[3]
        if v.op == 'int' or v.op == 'bool':
            x = int(v.a[0])
            for a, b in targets:
                if a == x:
                    self.goto(n, fr, b, env, facts, ())
                    return
            self.goto(n, fr, oth, env, facts, ())
            return
        if v.op == 'discr' and v.a[1] in self.p.variants:
            names = {d: nm for nm, d in self.p.variants[v.a[1]]}
            x = v.a[0]
            if x.op == 'call' and x.a[0] == 'cmp':
                seen = set()
                for a, b in targets:
                    nm = names.get(a & 0xff if a not in names else a) or names.get(a - 256) or \
                        {0: 'Equal', 1: 'Greater', 255: 'Less'}.get(a & 0xff)
                    seen.add(nm)
                    f = self.assume(facts, self.isvar(x, nm), True)
                    if f is not None:
                        self.goto(n, fr, b, env, facts | frozenset(f), f)
                rest = [m for m in ('Less', 'Equal', 'Greater') if m not in seen]
                if len(rest) == 1:
                    f = self.assume(facts, self.isvar(x, rest[0]), True)
                    if f is not None:
                        self.goto(n, fr, oth, env, facts | frozenset(f), f)
                elif len(rest) > 1:
                    f = []
                    ok_ = True
                    for s in seen:
                        g = self.assume(facts, self.isvar(x, s), False)
                        if g is None:
                            ok_ = False
                        else:
                            f += g
                    if ok_:
                        self.goto(n, fr, oth, env, facts | frozenset(f), f)
                return
            # group target values leading to the same block
            by = collections.OrderedDict()
            used = set()
            for a, b in targets:
                nm = names.get(a)
                if nm is None:
                    continue
                used.add(nm)
                by.setdefault(b, set()).add(nm)
            rest = {nm for nm in names.values() if nm not in used}
            if rest:
                by.setdefault(oth, set()).update(rest)
            if x.op == 'agg' and x.a[0] == M + 'Entry':
                # matching on a map entry is asking if there is a value under its key
                r = field(x, 'map')
                x = getk(self.rd(env, *r.a), field(x, 'key'))
                v = mk('discr', x, OPT)
                by = collections.OrderedDict((b, {{'Occupied': 'Some', 'Vacant': 'None'}[nm] for nm in vs}) for b, vs in by.items())
            for z in (x.a[0] if x.op == 'phi' else (x,)):
                if z.op == 'agg' and z.a[1] not in names.values() and z.a[0] != M + 'Entry':
                    raise TypeError('%s: matching %s as %s' % (fr.fn.path, show(z)[:80], v.a[1]))
            for b, vs in by.items():
                f = self.assume_var(facts, x, v.a[1], vs, True)
                if f is not None:
                    self.goto(n, fr, b, env, facts | frozenset(f), f)
            return
        if t[4] == 'bool':
            for a, b in targets:
                f = self.assume(facts, v, bool(a))
                if f is not None:
                    self.goto(n, fr, b, env, facts | frozenset(f), f)
            vals = [a for a, _ in targets]
            if vals == [0] or vals == [1]:
                f = self.assume(facts, v, not bool(vals[0]))
                if f is not None:
                    self.goto(n, fr, oth, env, facts | frozenset(f), f)
            return
        neg = []
        for a, b in targets:
            f = self.assume(facts, self.cmp_eq(v, cint(a)), True)
            if f is not None:
                self.goto(n, fr, b, env, facts | frozenset(f), f)
            neg.append(a)
        f = []
        for a in neg:
            g = self.assume(facts, self.cmp_eq(v, cint(a)), False)
            if g is None:
                return
            f += g
        if fr.body.blocks[oth][1][0] != 'unreachable':
            self.goto(n, fr, oth, env, facts | frozenset(f), f)

    def ret(self, n, fr, env, facts):
        v = env.get((fr.id, 0), UNIT)
        if fr.parent is None:
            self.event(n, 'ret', 'return', [v])
            n.ret = v
            # final values of what the caller can see
            return
        env = {k: x for k, x in env.items() if k[0] != fr.id}
        if v.op == 'ref' and v.a[0][0] == fr.id:
            v = self.val(env, v)
        self.finish(n, fr.parent, fr.dest, fr.target, env, facts, v, ())

    def finish(self, n, fr, dest, target, env, facts, v, label):
        """assign a call result and continue in the caller"""
        if target is None:
            return
        root, path = self.resolve(env, fr, dest)
        self.wr(env, root, path, v, lambda t_, p_, v_: self.event(n, 'store', showpath(p_), [t_, v_], None, None, p_))
        self.goto(n, fr, target, env, facts | frozenset(label), label)

    # ---- calls ------------------------------------------------------------------
    def call(self, n, fr, t, env, facts):
        _, f, ops, dest, target, loc, dty, muts = t
        fv = self.operand(env, fr, f)
        args = [self.operand(env, fr, o) for o in ops]
        c = Call(self, n, fr, env, facts, dest, target, loc, dty, muts)
        c.apply(fv, args, direct=True)

    def _prune(self):
        seen = set()
        st = [self.entry]
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            for m, _ in x.succ:
                st.append(m)
        self.live = [n for n in self.nodes.values() if n.id in seen]


class Call:
    def __init__(self, A, n, fr, env, facts, dest, target, loc, dty, muts):
        self.A, self.n, self.fr, self.env, self.facts = A, n, fr, env, facts
        self.dest, self.target, self.loc, self.dty, self.muts = dest, target, loc, dty, muts
        self.tag = 0
        self.kept = None

    def done(self, v, label=(), env=None):
        self.A.finish(self.n, self.fr, self.dest, self.target, dict(env if env is not None else self.env),
                      self.facts, v, label)

    def inline(self, fn, args, tag=0):
        A = self.A
        if fn.h in self.fr.stack and not fn.crate == 'models' or self.fr.depth >= A.max_depth:
            return False
        if self.fr.stack.count(fn.h) > 4:
            return False
        nf = A.frame(self.fr, self.n.block, fn, self.dest, self.target, tag, self.loc)
        env = {k: v for k, v in self.env.items() if k[0] != nf.id}
        for i, a in enumerate(args):
            env[(nf.id, i + 1)] = a
        A.goto(self.n, nf, 0, env, self.facts, ())
        return True

    def model(self, name, args):
        fn = self.A.p.models[name]
        if not self.inline(fn, args, tag=name):
            self.opaque(name, args)

    def opaque(self, name, args, info=None, ty=None):
        A = self.A
        snap = [A.val(self.env, a) for a in args]
        if name.endswith('::pow') and len(snap) == 2 and snap[0].op == snap[1].op == 'int' and \
                snap[0].a[0] ** snap[1].a[0] < 2 ** 64:
            return self.done(cint(snap[0].a[0] ** snap[1].a[0]))
        res = mk('call', name, *snap)
        if res.ty is None:
            res.ty = ty or self.dty
        if self.dty == '()':
            res = UNIT
        env = dict(self.env)
        for i in (self.muts if info is not None or True else ()):
            if i < len(args):
                others = [s for j, s in enumerate(snap) if j != i]
                v = args[i]
                A.mutate(env, v, name, others)
                if res.op == 'call' and '&' in self.dty:
                    if v.op == 'ref':
                        A.ptr_origin[res] = v.a
                    else:
                        A.ptr_origin[res] = (('T', v), ())
        if self.kept is not None:
            if A.fresh(self.kept):
                # each call gives an object of its own
                res = mk('call', A.site(name, self.n), *snap)
                res.ty = ty or self.dty
            elif snap and A.fluent(self.kept):
                # takes an object and gives it back changed
                b = snap[0]
                ev = frozenset([(name,) + tuple(snap[1:])])
                bs = b.a[0] if b.op == 'phi' and len(b.a[0]) <= 4 else [b]
                new = phi([mk('upd', x.a[0], x.a[1] | ev) if x.op == 'upd' else mk('upd', x, ev) for x in bs])
                if self.dty.startswith('std::result::Result<'):
                    root = b.a[0] if b.op == 'upd' else b
                    err = pay(mk('call', name, root, *snap[1:]), 'Err', '0')
                    res = phi([agg(RES, 'Ok', [('0', new)]), agg(RES, 'Err', [('0', err)])])
                else:
                    res = new
        if A.bare and self.dty.startswith('std::result::Result<'):
            # one outcome per call site, whatever it is called with
            res = mk('call', A.site(name, self.n))
            res.ty = ty or self.dty
            self.facts = frozenset(f for f in self.facts if not mentions(f, res))
        A.event(self.n, 'call', name, snap, res, self.loc, info, ty=self.dty)
        if self.target is None:
            A.event(self.n, 'panic', name, snap, None, self.loc, info)
            return
        if self.kept is not None and A.until(self.kept):
            return
        self.done(res, (), env)

    def apply(self, fv, args, direct=False):
        A = self.A
        if fv.op == 'fn':
            k = A.fninfo[fv.a[1]]
            self.callfn(k, fv.a[0], args)
            return
        if fv.op == 'agg' and fv.a[0].startswith('closure:'):
            fn = A.p.fns.get(fv.a[0][8:])
            if fn is not None and self.inline(fn, [fv] + list(args), tag=fv.id):
                return
        if fv.op == 'ident':
            self.done(args[0])
            return
        if fv.op == 'convfn':
            self.opaque('conv:' + fv.a[0], args)
            return
        if fv.op == 'phi':
            for x in sorted(fv.a[0], key=lambda z: z.id):
                if x.op in ('fn', 'agg'):
                    self.apply(x, args)
            return
        self.opaque('call', [fv] + list(args))

    def callfn(self, k, name, args):
        A = self.A
        if 'ctor' in k:
            adt, var = k['ctor']
            a = A.p.adts.get(adt)
            names = [str(i) for i in range(len(args))]
            en = a and a['kind'] == 'enum'
            if a:
                for vv in a['variants']:
                    if vv['name'] == var:
                        names = [f[0] for f in vv['fields']]
            v = agg(adt, var if en else '', list(zip(names, args)))
            A.event(self.n, 'agg', adt, [v], None, self.loc, None)
            self.done(v)
            return
        h = k.get('rh') or k.get('h')
        # non-derived local implementations first
        fn = A.p.fns.get(h) if h else None
        if fn is not None and fn.kind == 'fn' and not k.get('shim'):
            if fn.crate == 'models':
                if NATIVE_MODEL.get(fn.name):
                    NATIVE_MODEL[fn.name](self, k, args)
                    return
            elif fn.derived and fn.name in ('clone', 'eq', 'ne', 'cmp', 'partial_cmp', 'default', 'hash', 'fmt'):
                fn = None
            elif A.stop(fn):
                if name in ('FromStr::from_str', 'From::from', 'TryFrom::try_from', 'Into::into') and \
                        native(self, k, name, args):
                    return
                self.kept = fn
                self.opaque(name, args, k)
                return
            if fn is not None and 'rh' not in k and k.get('trait') and fn.j.get('intrait') and not k.get('item'):
                fn = None  # unresolved trait method: the default body is not authoritative
            if fn is not None and 'rh' not in k and k.get('trait') and fn.j.get('intrait') and \
                    k['args'] and len(k['args'][0]) <= 2 or (fn is not None and fn.j.get('intrait') and 'res' not in k
                                                            and k['args'] and k['args'][0] in ('Self', 'S', 'H', 'P')):
                fn = None
            if fn is not None and self.inline(fn, args):
                return
        if native(self, k, name, args):
            return
        self.opaque(name, args, k)


# ---- library semantics ---------------------------------------------------------

def call_via(c, k, trait, args):
    """workspace impl behind a foreign generic (From behind into, FromStr behind parse ...)"""
    for tr, m, h in k.get('via', ()):
        if short(tr) == trait and h in c.A.p.fns:
            return c.A.p.fns[h]
    return None


def opt_mut(c, ref, adt, wrap=lambda x: x):
    """the variant holding a reference to the payload, per case"""
    A = c.A
    root, path = ref.a
    v = A.rd(c.env, root, path)
    for var, _ in A.p.variants[adt]:
        f = A.assume_var(c.facts, v, adt, {var}, True)
        if f is None:
            continue
        if var == 'None':
            c.done(wrap(NONE), f)
        else:
            c.done(wrap(agg(adt, var, [('0', mk('ref', root, path + (('p', var, '0'),)))])), f)


def copies(A, fv):
    """the function returns its argument as it is or a clone of it"""
    if fv.op == 'fn':
        return A.fninfo[fv.a[1]].get('def') in ('std::clone::Clone::clone', 'core::clone::Clone::clone')
    if fv.op != 'agg' or not fv.a[0].startswith('closure:'):
        return False
    fn = A.p.fns.get(fv.a[0][8:])
    if fn is None or fn.j['argc'] != 2:
        return False
    same, b, blocks = {2}, 0, fn.j['blocks']
    for _ in blocks:
        sts, t, _ = blocks[b]
        for st in sts:
            if st[0] != '=' or len(st[1]) != 1:
                return False
            rv = st[2]
            src = rv[1][1] if rv[0] == 'use' and rv[1][0] in 'cm' else rv[2] if rv[0] == 'ref' else None
            if src is None or src[0] not in same or any(x != '*' for x in src[1:]):
                return False
            same.add(st[1][0])
        if t[0] == 'return':
            return 0 in same
        if t[0] == 'call' and t[1][0] == 'k' and t[1][1].get('trait') == 'core::clone::Clone' and t[1][1].get('name') == 'clone' \
                and t[2][0][0] in 'cm' and t[2][0][1][0] in same and len(t[3]) == 1:
            same.add(t[3][0])
            b = t[4]
        elif t[0] in ('goto', 'drop'):
            b = t[-1]
        else:
            return False
    return False


def native(c, k, name, args):
    A = c.A
    env = c.env
    ty, _, m = name.rpartition('::')
    if name in IDENT:
        c.done(args[0])
        return True
    if ty == 'MapLike':
        return coll(c, dict(k, args=['Map<']), 'BTreeMap', m, 'BTreeMap::' + m, args)
    if name in MODEL:
        fnname = MODEL[name]
        if fnname.startswith('option_') and m == 'take':
            c.model(fnname, args)
            return True
        if fnname == 'iter_try_for_each' or fnname == 'iter_try_fold':
            if c.dty.startswith('std::option'):
                if fnname == 'iter_try_fold':
                    fnname = 'iter_try_fold_option'
        if ty == 'Iterator' and fnname in ('iter_for_each', 'iter_fold', 'iter_partition', 'iter_unzip'):
            pass
        c.model(fnname, args)
        return True
    if ty in ('VacantEntry', 'OccupiedEntry'):
        x = A.val(env, args[0])
        if x.op == 'agg' and x.a[0] == M + 'Entry':
            if m == 'insert':
                keep = c.done
                old = getk(A.rd(env, *field(x, 'map').a), field(x, 'key'))
                if ty == 'OccupiedEntry':
                    c.done = lambda r, l=(), e=None: keep(pay(old, 'Some', '0'), l, e)
                _nm_fill(c, k, [field(x, 'map'), field(x, 'key'), args[1]])
                c.done = keep
                return True
            if m in ('get', 'get_mut', 'into_mut'):
                _nm_slot(c, k, [field(x, 'map'), field(x, 'key')])
                return True
            if m in ('key', 'into_key'):
                c.done(field(x, 'key'))
                return True
            if m == 'remove':
                return coll(c, dict(k, args=['Map<']), 'BTreeMap', 'remove', 'BTreeMap::remove', [field(x, 'map'), field(x, 'key')])
    if ty in ('Option', 'Result'):
        if m in ('is_some', 'is_none', 'is_ok', 'is_err'):
            v = A.val(env, args[0])
            var = {'is_some': 'Some', 'is_none': 'None', 'is_ok': 'Ok', 'is_err': 'Err'}[m]
            adt = OPT if ty == 'Option' else RES
            pos = {'None': 'Some', 'Err': 'Ok'}.get(var)
            if pos:
                c.done(A.neg(A.isvar(v, pos, adt)))
            else:
                c.done(A.isvar(v, var, adt))
            return True
        if m in ('unwrap', 'expect'):
            c.model('option_expect' if ty == 'Option' else 'result_expect', args[:1])
            return True
        if m in ('iter', 'into_iter'):
            c.done(agg(M + 'OptIter', '', [('opt', args[0])]))
            return True
        if m in ('as_mut', 'as_deref_mut') and args[0].op == 'ref':
            opt_mut(c, args[0], OPT if ty == 'Option' else RES)
            return True
        if ty == 'Option' and m == 'iter_mut' and args[0].op == 'ref':
            opt_mut(c, args[0], OPT, lambda x: agg(M + 'OptIter', '', [('opt', x)]))
            return True
        if m == 'insert' and args[0].op == 'ref':
            root, path = args[0].a
            e = dict(env)
            A.wr(e, root, path, some(args[1]),
                 lambda t_, p_, v_: A.event(c.n, 'store', showpath(p_), [t_, v_], None, c.loc, p_))
            c.done(mk('ref', root, path + (('p', 'Some', '0'),)), (), e)
            return True
        if m == 'replace' and args[0].op == 'ref':
            return mem_replace(c, args[0], some(args[1]))
    if name == 'Try::branch':
        t0 = k['args'][0] if k['args'] else ''
        v = A.val(env, args[0])
        if t0.startswith('std::option') or t0.startswith('core::option'):
            c.model('option_branch', args)
        else:
            c.model('result_branch', args)
        return True
    if name == 'FromResidual::from_residual':
        t0 = k['args'][0]
        if 'option::Option' in t0.split('<')[0]:
            c.done(NONE)
            return True
        conv = mk('ident')
        fn = call_via(c, k, 'From', args)
        if fn is not None and not A.stop(fn):
            conv = A.const({'k': 'fn', 'def': fn.path, 'name': fn.name, 'args': [], 'h': fn.h, 'item': 1})
        else:
            _, g0 = split_generics(t0)
            _, g1 = split_generics(k['args'][1]) if len(k['args']) > 1 else (0, [])
            if len(g0) == 2 and len(g1) == 2 and g0[1] != g1[1]:
                conv = mk('convfn', conv_name(g0[1]))
        c.model('result_from_residual', [args[0], conv])
        return True
    if name in ('From::from', 'Into::into', 'TryFrom::try_from', 'TryInto::try_into'):
        fn = call_via(c, k, 'From' if name in ('Into::into', 'From::from') else 'TryFrom', args)
        if fn is not None and not A.stop(fn) and c.inline(fn, args):
            return True
        if name == 'Into::into':
            src, dst = (k['args'] + ['', ''])[:2]
        else:
            dst, src = (k['args'] + ['', ''])[:2]
        if src == dst:
            c.done(args[0])
            return True
        if name in ('From::from', 'Into::into'):
            strs = ('&str', "&'static str", 'std::string::String', 'String')
            h = conv_name(dst)
            if h in ('String', 'Vec', 'Box', 'FieldName', 'VariantName', 'TypeName', 'RString', 'Cow',
                     'Arc', 'Rc', 'BTreeMap', 'BTreeSet', 'PathBuf', 'OsString') and \
                    conv_name(src) not in ('u8', 'char'):
                c.done(A.val(env, args[0]))
                return True
            if h == 'Option':
                c.done(some(args[0]))
                return True
            ints = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize')
            if h in ints and src in ints:
                a = A.val(env, args[0])
                c.done(a if a.op == 'int' else mk('cast', h, a))
                return True
            a = A.val(env, args[0])
            if a.op == 'call' and a.a[0] == 'conv:' + h or a.op == 'agg' and conv_name(a.a[0]) == h or \
                    a.op == 'pay' and a.a[0].op == 'call' and a.a[0].a[0] == 'parse:' + h and a.a[1] == 'Ok':
                # conversion into the type it already has, through a generic parameter
                c.done(a)
                return True
            r = mk('call', 'conv:' + h, a)
            r.ty = c.dty
            A.event(c.n, 'call', 'conv:' + h, [A.val(env, args[0])], r, c.loc, k, ty=c.dty)
            c.done(r)
            return True
        if conv_name(dst) == 'Confined':
            return conf_check(c, args[0])
        c.opaque('tryconv:' + conv_name(dst), args, k)
        return True
    if name in ('PartialEq::eq', 'PartialEq::ne', 'AssertEq::eq'):
        t = A.cmp_eq(A.val(env, args[0]), A.val(env, args[1]))
        c.done(A.neg(t) if m == 'ne' else t)
        return True
    if ty == 'PartialOrd' and m in ('lt', 'le', 'gt', 'ge'):
        a, b = A.val(env, args[0]), A.val(env, args[1])
        c.done({'lt': lambda: A.cmp_lt(a, b), 'gt': lambda: A.cmp_lt(b, a), 'le': lambda: A.neg(A.cmp_lt(b, a)),
                'ge': lambda: A.neg(A.cmp_lt(a, b))}[m]())
        return True
    if name in ('Ord::cmp',):
        c.done(mk('call', 'cmp', A.val(env, args[0]), A.val(env, args[1])))
        return True
    if name == 'PartialOrd::partial_cmp':
        c.done(some(mk('call', 'cmp', A.val(env, args[0]), A.val(env, args[1]))))
        return True
    if ty in ('Fn', 'FnMut', 'FnOnce') and m in ('call', 'call_mut', 'call_once'):
        f = A.val(env, args[0]) if args[0].op == 'ref' else args[0]
        tupv = A.val(env, args[1]) if args[1].op == 'ref' else args[1]
        if tupv.op == 'agg':
            rest = [v for _, v in tupv.a[2]]
        else:
            rest = [field(tupv, '0')]
        c.apply(f, rest)
        return True
    if name == 'Not::not':
        c.done(A.neg(A.val(env, args[0])))
        return True
    ARITH = {'Add::add': 'Add', 'Sub::sub': 'Sub', 'Mul::mul': 'Mul', 'Div::div': 'Div', 'Rem::rem': 'Rem',
             'BitAnd::bitand': 'BitAnd', 'BitOr::bitor': 'BitOr'}
    if name in ARITH and not k.get('rh'):
        x, y = A.val(env, args[0]), A.val(env, args[1])
        c.done(plus(c, x, y) if A.sums and name == 'Add::add' else A.binop(ARITH[name], x, y))
        return True
    ARITHA = {'AddAssign::add_assign': 'Add', 'SubAssign::sub_assign': 'Sub', 'MulAssign::mul_assign': 'Mul',
              'BitOrAssign::bitor_assign': 'BitOr', 'BitAndAssign::bitand_assign': 'BitAnd'}
    if name in ARITHA and not k.get('rh'):
        old = A.val(env, args[0])
        e = dict(env)
        y = A.val(env, args[1])
        new = plus(c, old, y) if A.sums and ARITHA[name] == 'Add' else A.binop(ARITHA[name], old, y)
        store(c, e, args[0], new)
        c.done(UNIT, (), e)
        return True
    # --- iteration
    if name == 'IntoIterator::into_iter' or (ty in COLL and m in ('iter', 'iter_mut', 'into_iter')):
        a = args[0]
        t0 = k['args'][0] if k['args'] else ''
        v = A.val(env, a)
        isopt = (v.op == 'agg' and v.a[0] == OPT) or 'option::Option<' in (t0.lstrip('&').split('<')[0] + '<') or \
            (v.ty or '').lstrip('&').startswith(('std::option::Option', 'core::option::Option'))
        if isopt and name == 'IntoIterator::into_iter':
            if a.op == 'ref' and t0.startswith('&mut'):
                opt_mut(c, a, OPT, lambda x: agg(M + 'OptIter', '', [('opt', x)]))
                return True
            c.done(agg(M + 'OptIter', '', [('opt', v)]))
            return True
        if a.op == 'ref' and (m == 'iter_mut' or t0.startswith('&mut') or name == 'IntoIterator::into_iter'):
            if v.op == 'agg' and v.a[0] in NEXT:
                c.done(v)
                return True
            if v.op == 'ref':
                c.done(v)
                return True
            ismap = 'Map<' in t0.split(',')[0] or ty in ('BTreeMap', 'HashMap', 'IndexMap') or 'Map<' in \
                (k['args'][0] if k['args'] else '')
            root, path = a.a
            c.done(mk('ref', root, path + ((('mm',),) if ismap else ())))
            return True
        c.done(v if a.op == 'ref' else a)
        return True
    if ty in COLL and m in ('keys', 'into_keys'):
        c.done(mk('call', 'keys', A.val(env, args[0])))
        return True
    if ty in COLL and m in ('values', 'into_values'):
        c.done(mk('call', 'values', A.val(env, args[0])))
        return True
    if ty in COLL and m in ('values_mut',):
        if args[0].op == 'ref':
            root, path = args[0].a
            c.done(mk('ref', root, path + (('vm',),)))
        else:
            root, path = ('T', args[0]), ()
            c.done(mk('ref', root, path + (('vm',),)))
        return True
    if ty in COLL and m == 'iter_mut' or (ty == 'slice' and m == 'iter_mut'):
        c.done(mk('ref', ('T', args[0]), ()))
        return True
    if name == 'Iterator::next' or (ty in ('Iter', 'IntoIter', 'Range', 'Split') and m == 'next'):
        iter_next(c, args[0], k)
        return True
    if ty == 'Iterator' or ty == 'DoubleEndedIterator':
        if m in ADAPT:
            st, fn_ = ADAPT[m]
            if m == 'map' and copies(A, args[1]):
                c.done(args[0])
                return True
            c.done(agg(M + st, '', [('iter', args[0]), ('f', args[1])]))
            return True
        if m == 'flat_map' and len(k['args']) > 1 and k['args'][1].startswith(('std::option::Option<', 'core::option::Option<')):
            c.done(agg(M + 'FilterMap', '', [('iter', args[0]), ('f', args[1])]))
            return True
        if m == 'flat_map':
            c.done(agg(M + 'FlatMap', '', [('iter', args[0]), ('f', args[1]), ('cur', NONE)]))
            return True
        if m == 'flatten':
            c.done(agg(M + 'Flatten', '', [('iter', args[0]), ('cur', NONE)]))
            return True
        if m == 'chain':
            b = args[1]
            v = A.val(env, b)
            t1 = k['args'][1] if len(k['args']) > 1 else ''
            if (v.op == 'agg' and v.a[0] == OPT) or t1.startswith('std::option::Option'):
                b = agg(M + 'OptIter', '', [('opt', v)])
            c.done(agg(M + 'Chain', '', [('a', args[0]), ('b', b), ('first', TRUE)]))
            return True
        if m == 'zip':
            c.done(agg(M + 'Zip', '', [('a', args[0]), ('b', args[1])]))
            return True
        if m == 'enumerate':
            c.done(agg(M + 'Enumerate', '', [('iter', args[0])]))
            return True
        if m == 'try_for_each':
            c.model('iter_try_for_each', args)
            return True
        if m == 'try_fold':
            c.model('iter_try_fold_option' if 'Option' in c.dty.split('<')[0] else 'iter_try_fold', args)
            return True
        if m == 'collect':
            return collect(c, k, args)
        if m == 'sum':
            fn = call_via(c, k, 'Sum', args)
            if fn is not None and not A.stop(fn) and c.inline(fn, args):
                return True
            c.model('iter_sum', [args[0], cint(0)])
            return True
        if m in ('count', 'last', 'max', 'min', 'max_by_key', 'min_by_key', 'max_by', 'min_by', 'reduce', 'product'):
            c.model('iter_reduce_opaque', [args[0]])
            return True
    if name in ('FromIterator::from_iter', 'Confined::from_iter_checked', 'Confined::from_iter_unsafe'):
        return collect(c, k, args, name == 'FromIterator::from_iter')
    if name == 'Confined::try_from_iter':
        c.tryconf = True
        return collect(c, k, args, conf=True)
    if name == 'Confined::try_from':
        return conf_check(c, args[0])
    if name in ('Extend::extend', 'Confined::extend', 'Vec::extend_from_slice', 'Vec::append', 'BTreeMap::append',
                'BTreeSet::append', 'VecDeque::extend'):
        if name == 'Confined::extend':
            A.event(c.n, 'call', 'extend', [A.val(env, a) for a in args], None, c.loc, k)
            # size-checked: the result is opaque, the contents are the same
            r = mk('call', 'Confined::extend', *[A.val(env, a) for a in args])
            e = dict(env)
            src = A.val(env, args[1])
            if src.op == 'agg' and src.a[0] in NEXT:
                # run the pipeline: model loop then opaque result
                r.ty = c.dty
                c.model('iter_extend_checked', args + [r])
                return True
            mut_add(c, e, args[0], elem(src))
            # Result<(), Error>
            r.ty = c.dty
            c.done(r, (), e)
            return True
        a1 = args[1]
        c.model('iter_extend', [args[0], A.val(env, a1) if a1.op == 'ref' else a1])
        return True
    if ty in COLL or ty in STRS:
        if coll(c, k, ty, m, name, args):
            return True
    if name in ('Default::default', 'StrictDumb::strict_dumb'):
        t0 = k['args'][0] if k['args'] else ''
        h = conv_name(t0)
        if h in COLL or h in STRS:
            c.done(EMPTY)
        elif h == 'Option':
            c.done(NONE)
        elif h == 'bool':
            c.done(FALSE)
        elif h in ('u8', 'u16', 'u32', 'u64', 'usize', 'i64', 'u128'):
            c.done(cint(0))
        else:
            fn = A.p.fns.get(k.get('rh', ''))
            r = mk('call', m + ':' + h)
            r.ty = c.dty
            A.event(c.n, 'call', m + ':' + h, [], r, c.loc, k)
            c.done(r)
        return True
    if name in ('mem::replace',):
        return mem_replace(c, args[0], args[1])
    if name in ('mem::take',):
        return mem_replace(c, args[0], EMPTY if any(x in c.dty for x in ('Map<', 'Set<', 'Vec<', 'Confined<', 'String'))
                           else (NONE if c.dty.startswith('std::option') else DEFAULT))
    if name == 'mem::swap' and args[0].op == 'ref' and args[1].op == 'ref':
        e = dict(env)
        a, b = A.val(env, args[0]), A.val(env, args[1])
        store(c, e, args[0], b)
        store(c, e, args[1], a)
        c.done(UNIT, (), e)
        return True
    if name == 'Cursor::new' and args[0].op == 'ref' and args[0].a[1] and args[0].a[1][-1][0] == 's':
        c.done(args[0])
        return True
    if name in ('slice::copy_from_slice', 'slice::clone_from_slice', 'Write::write_all'):
        r = args[0]
        while r.op == 'ref' and A.rd(env, *r.a).op == 'ref':
            r = A.rd(env, *r.a)
        if r.op == 'ref' and (m != 'write_all' or r.a[1] and r.a[1][-1][0] == 's'):
            e = dict(env)
            v = A.val(env, args[1])
            A.event(c.n, 'call', 'copy', [A.rd(env, *r.a), v], None, c.loc, k)
            A.wr(e, r.a[0], r.a[1], v)
            if m == 'write_all':
                c.done(ok(UNIT), (), e)
            else:
                c.done(UNIT, (), e)
            return True
    if name in ('mem::drop', 'mem::forget'):
        c.done(UNIT)
        return True
    if name in ('Index::index', 'IndexMut::index_mut'):
        t0 = k['args'][0] if k['args'] else ''
        a, i = args[0], A.val(env, args[1])
        v = A.val(env, a)
        if 'Map<' in t0.split(',')[0] or 'HashMap' in t0 or 'BTreeMap' in t0.split('>')[0]:
            stepk = ('k', i)
        elif 'Range' in (k['args'][1] if len(k['args']) > 1 else ''):
            if m == 'index_mut' and a.op == 'ref':
                c.done(mk('ref', a.a[0], a.a[1] + (('s', i),)))
                return True
            r = mk('call', 'slice', v, i)
            c.done(r)
            return True
        else:
            stepk = ('i', i)
            if index(v, i) is elem(v):
                stepk = ('e',)
        A.event(c.n, 'call', 'index', [v, i], proj(v, stepk), c.loc, k)
        if m == 'index_mut' and a.op == 'ref':
            c.done(mk('ref', a.a[0], a.a[1] + (stepk,)))
        else:
            c.done(proj(v, stepk))
        return True
    if m == 'to_string' and ty == 'ToString':
        fn = call_via(c, k, 'Display', args)
        a = A.val(env, args[0])
        if a.op == 'str' or k['args'] and k['args'][0] in ('str', 'std::string::String', '&str'):
            c.done(a)
            return True
        r = mk('call', 'to_string', a)
        r.ty = 'std::string::String'
        A.event(c.n, 'call', 'to_string', [A.val(env, args[0])], r, c.loc, k)
        c.done(r)
        return True
    if name == 'str::parse':
        fn = call_via(c, k, 'FromStr', args)
        if fn is not None and not A.stop(fn) and c.inline(fn, args):
            return True
        tgt = (k['args'] + ['?'])[0]
        c.opaque('parse:' + conv_name(tgt), args, k)
        return True
    if name == 'FromStr::from_str':
        tgt = (k['args'] + ['?'])[0]
        c.opaque('parse:' + conv_name(tgt), args, k)
        return True
    if ty == 'panicking' or name in ('rt::begin_panic', 'panicking::panic_fmt', 'option::unwrap_failed'):
        A.event(c.n, 'panic', name, [A.val(env, a) for a in args], None, c.loc, k)
        return True
    if name == 'Box::new_uninit':
        c.done(mk('newbox', c.fr.id, c.n.block))
        return True
    if name == 'boxed::box_assume_init_into_vec_unsafe':
        v = A.val(env, args[0])
        while v.op == 'with' and len(v.a[1]) == 1 and v.a[0].op == 'newbox':
            v = v.a[1][0][1]
        c.done(v)
        return True
    if ty == 'Formatter' or name in ('Write::write_fmt', 'Write::write_str', 'Write::write_char'):
        # formatter state is not tracked; the written pieces are the events
        snap = [A.val(env, a) for a in args]
        r = mk('call', name, *snap)
        r.ty = c.dty
        A.event(c.n, 'call', name, snap, r, c.loc, k, ty=c.dty)
        c.done(r)
        return True
    return False


def store(c, e, ref, v):
    A = c.A
    if ref.op == 'ref':
        A.wr(e, ref.a[0], ref.a[1], v,
             lambda t_, p_, v_: A.event(c.n, 'store', showpath(p_), [t_, v_], None, c.loc, p_))
    else:
        A.wr(e, ('T', ref), (), v,
             lambda t_, p_, v_: A.event(c.n, 'store', showpath(p_), [t_, v_], None, c.loc, p_))


def mem_replace(c, ref, new):
    e = dict(c.env)
    old = c.A.val(c.env, ref)
    store(c, e, ref, new)
    c.done(old, (), e)
    return True


def mut_add(c, e, ref, x):
    c.A.mutate(e, ref, c.A.site('add', c.n) if c.A.tag and c.A.tag(x) else 'add', [x])


def plus(c, a, b):
    """a + b, named by the place which adds"""
    nm = c.A.site('sum', c.n)
    c.A.event(c.n, 'call', nm, [a, b], None, c.loc)
    ev = frozenset([(nm, b)])
    return mk('upd', a.a[0], a.a[1] | ev) if a.op == 'upd' else mk('upd', a, ev)


def conf_check(c, a):
    A = c.A
    v = A.val(c.env, a)
    r = mk('call', 'size_check', v)
    r.ty = 'core::result::Result'
    f = A.assume_var(c.facts, r, RES, {'Ok'}, True)
    if f is not None:
        c.done(ok(v), f)
    f = A.assume_var(c.facts, r, RES, {'Err'}, True)
    if f is not None:
        c.done(err(pay(r, 'Err', '0')), f)
    return True


def collect(c, k, args, static=False, conf=False):
    A = c.A
    if not conf:
        fn = call_via(c, k, 'FromIterator', args)
        if fn is not None and not A.stop(fn) and c.inline(fn, args):
            return True
    d = c.dty
    a = args[0]
    v = A.val(c.env, a) if a.op == 'ref' else a
    h = split_generics(d)[0].split('::')[-1]
    if conf:
        # Result<Confined, _>: contents of the iterator, then a size check
        if v.op == 'agg' and v.a[0] in NEXT:
            c.model('iter_collect_result_conf' if 'iter_collect_result_conf' in A.p.models else 'iter_collect', [v])
            return True
        return conf_check(c, v if plain_src(v) else mk('upd', EMPTY, frozenset([('add', elem(v))])))
    if h == 'Result':
        c.model('iter_collect_result', [v])
        return True
    if h == 'Option':
        c.model('iter_collect_option', [v])
        return True
    if not (v.op == 'agg' and v.a[0] in NEXT):
        # re-collecting a plain collection keeps its elements
        if h in ('Vec', 'BTreeSet', 'HashSet', 'BTreeMap', 'HashMap', 'Confined', 'VecDeque', 'Box'):
            if v.op == 'call' and v.a[0] in ('keys', 'values'):
                c.done(mk('upd', EMPTY, frozenset([('add', elem(v))])))
            else:
                c.done(v)
            return True
    c.model('iter_collect', [v])
    return True


def plain_src(v):
    return not (v.op == 'call' and v.a[0] in ('keys', 'values')) and not (v.op == 'agg' and v.a[0] in NEXT)


def iter_next(c, a, k):
    A = c.A
    env = c.env
    if a.op == 'ref':
        root, path = a.a
        v = A.rd(env, root, path)
        n = 0
        while v.op == 'ref' and n < 4:
            # the iterator itself is a mutable reference: to another iterator or to a collection
            r2, p2 = v.a
            w = A.rd(env, r2, p2)
            if w.op == 'agg' and w.a[0] in NEXT:
                a, v = v, w
                root, path = r2, p2
                break
            if w.op == 'ref':
                a, v = v, w
                n += 1
                continue
            # mutable iteration over a collection
            last = p2[-1][0] if p2 else ''
            base = p2[:-1] if last in ('mm', 'vm') else p2
            src = A.rd(env, r2, base)
            fresh = drop_elem(src)
            if fresh is not src:
                c.fresh = (r2, base, fresh)
                src = fresh
            x = mk('ref', r2, base + (('e',),))
            if last == 'vm':
                x = mk('ref', r2, base + (('e',), ('f', '1')))
            elif last == 'mm':
                x = tup(field(elem(src), '0'), mk('ref', r2, base + (('e',), ('f', '1'))))
            return next_fork(c, src, x)
        if v.op == 'agg' and v.a[0] in NEXT:
            c.model(NEXT[v.a[0]], [mk('ref', root, path)])
            return
        src = v
    else:
        src = env.get(('T', a), a)
        if src.op == 'agg' and src.a[0] in NEXT:
            c.model(NEXT[src.a[0]], [mk('ref', ('T', a), ())])
            return
    next_fork(c, src, elem(src))


def drop_elem(s):
    """the collection as seen by the next iteration step: per-element edits of the previous step removed"""
    if s.op == 'with':
        ents = tuple((p, v) for p, v in s.a[1] if p[0] != ('e',))
        if len(ents) != len(s.a[1]):
            return mk('with', s.a[0], ents) if ents else s.a[0]
    return s


def next_fork(c, src, x):
    A = c.A
    src = norm_src(src)
    e = elem(src)
    # a new element: what was known about the previous one is void
    es = list(e.a[0]) if e.op == 'phi' else [e]
    facts = frozenset(f for f in c.facts if not any(mentions(f, z) for z in es))
    keep = c.facts
    if not (x.op == 'top' and x.a[0] == 'bottom'):
        c.facts = facts
        env = None
        if getattr(c, 'fresh', None):
            env = dict(c.env)
            root, path, v = c.fresh
            if path:
                env[root] = setpath(env.get(root, root[1] if root[0] == 'T' else top()), path, v)
            else:
                env[root] = v
        c.done(some(x), (('some', src, True),), env)
    c.facts = keep
    c.done(NONE, (('none', src, True),))


def norm_src(src):
    """name of the iterated collection, independent of how it is walked"""
    n = 0
    while n < 6:
        n += 1
        if src.op == 'call' and src.a[0] in ('keys', 'values'):
            src = src.a[1]
            continue
        if src.op == 'agg' and src.a[0].endswith('::Range'):
            end = field(src, 'end')
            if field(src, 'start') is cint(0) and end.op == 'call' and end.a[0] == 'len':
                src = end.a[1]
                continue
        break
    return src


def mentions(f, e):
    return isinstance(f[1], Term) and contains(f[1], e) and f[0] not in ('some', 'none')


def coll(c, k, ty, m, name, args):
    A = c.A
    env = c.env
    S = lambda i: A.val(env, args[i])
    if m in ('new', 'with_capacity', 'default', 'empty') and ty != 'slice':
        c.done(EMPTY)
        return True
    if m in ('len',):
        c.done(A.length(S(0)))
        return True
    if m in ('is_empty',):
        if ty in STRS:
            c.done(A.cmp_eq(S(0), cstr('')))
        else:
            c.done(A.cmp_eq(A.length(S(0)), cint(0)))
        return True
    if ty in STRS:
        return False
    isset = ty in ('BTreeSet', 'HashSet', 'IndexSet') or (ty == 'Confined' and k['args'] and 'Set<' in k['args'][0])
    if m == 'contains_key':
        c.done(A.isvar(getk(S(0), S(1)), 'Some', OPT))
        return True
    if m == 'get' and not isset:
        t = getk(S(0), S(1))
        if t.ty is None:
            t.ty = c.dty
        A.event(c.n, 'call', 'get', [S(0), S(1)], t, c.loc, k)
        c.done(t)
        return True
    if m == 'contains' or (isset and m == 'get'):
        t = mk('call', 'contains', S(0), S(1))
        t.ty = 'bool'
        A.event(c.n, 'call', 'contains', [S(0), S(1)], t, c.loc, k)
        if m == 'get':
            f = A.assume(c.facts, t, True)
            if f is not None:
                c.done(some(S(1)), f)
            f = A.assume(c.facts, t, False)
            if f is not None:
                c.done(NONE, f)
            return True
        c.done(t)
        return True
    if m == 'get_mut':
        root, path = args[0].a if args[0].op == 'ref' else (('T', args[0]), ())
        base = A.rd(env, root, path)
        t = getk(base, S(1))
        A.event(c.n, 'call', 'get_mut', [base, S(1)], t, c.loc, k)
        f = A.assume_var(c.facts, t, OPT, {'Some'}, True)
        if f is not None:
            c.done(some(mk('ref', root, path + (('k', S(1)),))), f)
        f = A.assume_var(c.facts, t, OPT, {'None'}, True)
        if f is not None:
            c.done(NONE, f)
        return True
    if m == 'entry':
        r = args[0] if args[0].op == 'ref' else mk('ref', ('T', args[0]), ())
        v = agg(M + 'Entry', '', [('map', r), ('key', S(1))])
        if ty == 'Confined':
            t = mk('call', 'Confined::entry', S(0), S(1))
            f = A.assume_var(c.facts, t, RES, {'Ok'}, True)
            if f is not None:
                c.done(ok(v), f)
            f = A.assume_var(c.facts, t, RES, {'Err'}, True)
            if f is not None:
                c.done(err(pay(t, 'Err', '0')), f)
            return True
        c.done(v)
        return True
    if m in ('insert', 'push', 'push_back', 'push_front', 'replace') and len(args) in (2, 3) and ty != 'slice' and \
            not (ty == 'Vec' and m == 'insert'):
        if len(args) == 3:
            x = tup(S(1), S(2))
        else:
            x = S(1)
        base = S(0)
        e = dict(env)
        r = mk('call', name, base, *[S(i) for i in range(1, len(args))])
        A.event(c.n, 'call', 'add', [base, x], r, c.loc, k, dst=A.place(args[0]))
        mut_add(c, e, args[0], x)
        if c.dty == '()':
            c.done(UNIT, (), e)
        elif ty == 'Confined':
            r.ty = c.dty
            f = A.assume_var(c.facts, r, RES, {'Ok'}, True)
            if f is not None:
                okv = UNIT
                if len(args) == 3:
                    okv = getk(base, S(1))
                elif isset:
                    okv = A.neg(mk('call', 'contains', base, x))
                c.done(ok(okv), f, e)
            f = A.assume_var(c.facts, r, RES, {'Err'}, True)
            if f is not None:
                c.done(err(pay(r, 'Err', '0')), f, env)
        elif len(args) == 3:
            c.done(getk(base, S(1)), (), e)
        else:
            t = mk('call', 'contains', base, x)
            t.ty = 'bool'
            c.done(A.neg(t), (), e)
        return True
    if m in ('remove', 'swap_remove', 'shift_remove') and len(args) == 2:
        base = S(0)
        e = dict(env)
        A.event(c.n, 'call', 'remove', [base, S(1)], None, c.loc, k, dst=A.place(args[0]))
        A.mutate(e, args[0], 'remove', [S(1)])
        if ty == 'Vec':
            c.done(index(base, S(1)), (), e)
        elif isset:
            c.done(mk('call', 'contains', base, S(1)), (), e)
        elif ty == 'Confined':
            r = mk('call', name, base, S(1))
            r.ty = c.dty
            f = A.assume_var(c.facts, r, RES, {'Ok'}, True)
            if f is not None:
                c.done(ok(getk(base, S(1))), f, e)
            f = A.assume_var(c.facts, r, RES, {'Err'}, True)
            if f is not None:
                c.done(err(pay(r, 'Err', '0')), f, env)
        else:
            c.done(getk(base, S(1)), (), e)
        return True
    if m in ('pop', 'pop_first', 'pop_last', 'pop_front', 'pop_back') and len(args) == 1 and c.dty.startswith('std::option::Option<'):
        # which element it is depends on the order; it is one of those added
        A.event(c.n, 'call', 'pop', [S(0)], None, c.loc, k, dst=A.place(args[0]))
        src = mk('call', 'worklist')
        x = elem(src)
        e = dict(env)
        A.mutate(e, args[0], 'pop', [])
        keep = c.facts
        c.facts = frozenset(f for f in c.facts if not mentions(f, x))
        c.done(some(x), (('some', src, True),), e)
        c.facts = keep
        c.done(NONE, (('none', src, True),))
        return True
    if m == 'retain' and len(args) == 2:
        base = S(0)
        A.event(c.n, 'call', 'retain', [base, S(1)], None, c.loc, k, dst=A.place(args[0]))
        A.mutate(c.env, args[0], 'retain', [S(1)])
        c.model('retain', [base, args[1]])
        return True
    if m in ('with', 'with_key_value') and ty == 'Confined':
        x = S(0) if len(args) == 1 else tup(S(0), S(1))
        c.done(mk('upd', EMPTY, frozenset([('add', x)])))
        return True
    if m == 'clear':
        e = dict(env)
        A.event(c.n, 'call', 'clear', [S(0)], None, c.loc, k, dst=A.place(args[0]))
        store(c, e, args[0], EMPTY)
        c.done(UNIT, (), e)
        return True
    if m in ('sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'dedup') and ty in ('slice', 'Vec'):
        e = dict(env)
        A.event(c.n, 'call', m, [S(0)], None, c.loc, k)
        A.mutate(e, args[0], m, [])
        c.done(UNIT, (), e)
        return True
    return False


# stand-ins of the models crate -----------------------------------------------------

def _nm_add_one(c, k, args):
    e = dict(c.env)
    base = c.A.val(c.env, args[0])
    x = c.A.val(c.env, args[1])
    c.A.event(c.n, 'call', 'add', [base, x], None, c.loc, k, dst=c.A.place(args[0]))
    mut_add(c, e, args[0], x)
    c.done(UNIT, (), e)


def _nm_add_assign(c, k, args):
    e = dict(c.env)
    c.A.mutate(e, args[0], 'sum', [c.A.val(c.env, args[1])])
    c.done(UNIT, (), e)


def _nm_slot(c, k, args):
    r = args[0]
    root, path = r.a if r.op == 'ref' else (('T', r), ())
    c.done(mk('ref', root, path + (('k', c.A.val(c.env, args[1])),)))


def _nm_fill(c, k, args):
    A = c.A
    r = args[0]
    root, path = r.a if r.op == 'ref' else (('T', r), ())
    key, v = A.val(c.env, args[1]), A.val(c.env, args[2])
    base = A.rd(c.env, root, path)
    e = dict(c.env)
    A.event(c.n, 'call', 'add', [base, tup(key, v)], None, c.loc, k, dst=A.place(r))
    A.mutate(e, r, 'add', [tup(key, v)])
    A.wr(e, root, path + (('k', key),), v)
    c.done(mk('ref', root, path + (('k', key),)), (), e)


def _nm_maplike(c, k, args):
    m = k['name']
    coll(c, dict(k, args=['Map<']), 'BTreeMap', m, 'BTreeMap::' + m, args)


NATIVE_MODEL = {
    'add_one': _nm_add_one, 'add_assign': _nm_add_assign, 'empty': lambda c, k, a: c.done(EMPTY),
    'default': lambda c, k, a: c.done(DEFAULT),
    'reduced': lambda c, k, a: c.done(mk('call', 'reduced', c.A.val(c.env, a[0]))),
    'position_of': lambda c, k, a: c.done(mk('call', 'position', c.A.val(c.env, a[0]))),
    'last_position_of': lambda c, k, a: c.done(mk('call', 'rposition', c.A.val(c.env, a[0]))),
    'entry_slot': _nm_slot, 'entry_fill': _nm_fill,
    'choice': lambda c, k, a: c.done(mk('choice')),
    'keep': lambda c, k, a: (c.A.event(c.n, 'call', 'keep', [c.A.val(c.env, x) for x in a], None, c.loc, k), c.done(UNIT)),
    'discard': lambda c, k, a: (c.A.event(c.n, 'call', 'discard', [c.A.val(c.env, x) for x in a], None, c.loc, k), c.done(UNIT)),
}
