"""binary form of stores and containers, files of the stores"""
import re
from rules import *

RULE = '''For every type with a binary form the encoding and the decoding function and the closures they hand to the writer and the
reader are evaluated: on success every declared field has been written exactly once from its own value, every alternative
writes all of its fields, and the decoded object takes each field from the part of the same name (or place); only the link
of a store to its files is left out. For the stores the copy has each field from the same field of the original without the
link to the files, and the file read for each store is the one written for it and no other.'''
FLOOR = 300
ASSUMPTIONS = ['the writers and readers of the strict encoding library write and read the values they are given']
SKIP = ('nonasync::persistence::Persistence<', 'persistence::Persistence<')
MUST = ['MemStash', 'MemState', 'MemIndex', 'MemContractState', 'Consignment', 'Kit', 'WitnessBundle', 'Supplement', 'Iface', 'IfaceImpl', 'SealWitness', 'Fascia', 'Amount']


def skipped(f):
    return any(s in f[1] for s in SKIP)


def closure(p, t):
    return p.fns.get(t.a[0][8:]) if t.op == 'agg' and str(t.a[0]).startswith('closure:') else None


def chain(t):
    """the values handed to the writer, in order"""
    out = []
    while True:
        if t.op == 'call' and t.a[0].split('::')[-1] in ('complete',):
            t = t.a[1]
        elif show(t).endswith('@Ok'):
            t = t.a[0]
        elif t.op == 'call' and t.a[0].split('::')[-1] == 'write_field':
            out.append(t.a[2:])
            t = t.a[1]
        else:
            return out[::-1]


def oks(g):
    return [x for _, r in g.rets() for a in alts(r) if a.op == 'agg' and a.a[1] == 'Ok' for x in alts(field(a, '0'))]


def written(ck, S, fn, fields, base):
    """every field is written once"""
    g = ck.graph(G(ck.p, fn))
    rs = oks(g)
    ck.ob(S, bool(rs), 'can be written')
    names = {}
    for r in rs:
        c = chain(r)
        vals = [show(x[-1]) for x in c]
        want = {b: f for f in fields for b in base(f)}
        for f in fields:
            k = [v for v in vals if v in base(f)]
            ck.ob(S, len(k) == (0 if skipped(f) else 1), 'the field %s is written %d times' % (f[0], len(k)))
        ck.ob(S, all(v in want for v in vals), 'only fields are written: %s' % [v for v in vals if v not in want][:3])
        for n, x in enumerate(c):
            if show(x[-1]) in want:
                names[want[show(x[-1])][0]] = show(x[0]) if len(x) > 1 else n
    return names


def reads(t):
    return t.op == 'call' and t.a[0].split('::')[-1] == 'read_field'


def decoded(ck, S, a, fields, names):
    """every field is taken from the part written for it"""
    seen = []
    for f in fields:
        t = field(a, f[0])
        if skipped(f):
            ck.ob(S, m(t, ['Option::None', 'default<*', 'default:*']), 'the link to the files is not read: %s' % show(t))
            continue
        if show(t).endswith('@Ok'):
            t = t.a[0]
        ok = reads(t)
        if ok and len(t.a) > 2 and f[0] in names:
            ok = show(t.a[2]) == names[f[0]]
        ck.ob(S, ok, 'the field %s is read from its own part: %s' % (f[0], cutstr(show(t), 200)))
        if ok:
            seen.append(show(t.a[2]) if len(t.a) > 2 else len(seen))
    ck.ob(S, len(seen) == len(set(seen)), 'no part is used twice')


def binary(ck, adt, enc, dec):
    p = ck.p
    S = adt.split('::')[-1]
    vs = p.adts[adt]['variants']
    g = ck.graph(G(p, enc))
    we = [e for e in g.events(kind='call') if e.name.startswith('TypedWrite::write_')]
    h = ck.graph(G(p, dec))
    rd = [e for e in h.events(kind='call') if e.name.startswith('TypedRead::read_')]
    if len(we) != 1 or len(rd) != 1:
        return False
    kind = we[0].name.split('_')[-1]
    back = rd[0].name.split('_')[-1]
    if kind == 'newtype':
        fs = vs[0]['fields']
        ck.ob(S, len(fs) == 1 and m(we[0].args[1], ['$0.%s' % fs[0][0], '$0']), 'the value is written: %s' % show(we[0].args[1]))
        return True
    ck.ob(S, kind == back, 'written as %s and read as %s' % (kind, back))
    if kind == 'enum':
        ck.ob(S, all(not v['fields'] for v in vs), 'is a plain enumeration')
        ck.ob(S, m(we[0].args[1], '$0'), 'its own value is written: %s' % show(we[0].args[1]))
        return True
    ce = closure(p, we[0].args[1])
    cd = closure(p, rd[0].args[1])
    if ce is None or cd is None:
        return False
    if kind in ('struct', 'tuple'):
        fs = vs[0]['fields']
        names = written(ck, S, ce, fs, lambda f: ['$0.self.' + f[0]] + (['$0.self'] if len(fs) == 1 else []))
        rs = oks(ck.graph(G(p, cd)))
        ck.ob(S, bool(rs), 'can be read')
        for r in rs:
            decoded(ck, S, r, fs, names)
        return True
    # alternatives
    g = ck.graph(G(p, ce))
    byname = {}
    for v in vs:
        V = '%s::%s' % (S, v['name'])
        ws = [e for e in g.events(kind='call') if e.name.startswith('WriteUnion::write_') and g.only_if(lambda x, e=e: x is e, ['$0.self is ' + v['name']])[0]]
        ck.ob(V, len(ws) == 1, 'the alternative is written as one: %d' % len(ws))
        for e in ws:
            byname.setdefault(show(e.args[1]), []).append(v['name'])
            k = e.name.split('_')[-1]
            if k == 'unit':
                ck.ob(V, not v['fields'], 'has no fields')
                continue
            if k == 'newtype':
                ck.ob(V, len(v['fields']) == 1 and m(e.args[2], ['$0.self@%s' % v['name'], '$0.self@%s.%s' % (v['name'], v['fields'][0][0])]), 'its value is written: %s' % show(e.args[2]))
                continue
            c = closure(p, e.args[2])
            ck.ob(V, c is not None, 'its fields are written')
            if c is None:
                continue
            caps = {n: show(t) for n, t in e.args[2].a[2]}

            def base(f, v=v, caps=caps):
                own = ['$0.self@%s.%s' % (v['name'], f[0])] + (['$0.self@' + v['name']] if f[0] == '0' or len(v['fields']) == 1 else [])
                return ['$0.' + n for n, t in caps.items() if t in own]
            written(ck, V, c, v['fields'], base)
    ck.ob(S, all(len(x) == 1 for x in byname.values()) and len(byname) == len(vs), 'alternatives are written under different names')
    # decoding
    got = {}
    todo, done = [cd], set()
    while todo:
        c = todo.pop()
        if c.path in done:
            continue
        done.add(c.path)
        h = ck.graph(G(p, c))
        for e in h.events(kind='call'):
            todo += [x for x in (closure(p, a) for a in e.args) if x is not None]
            if e.name == 'ReadUnion::read_newtype':
                got.setdefault('newtype', []).append(e)
        for r in oks(h):
            if r.op == 'agg' and r.a[0] == adt:
                got.setdefault(r.a[1], []).append(r)
    for v in vs:
        V = '%s::%s' % (S, v['name'])
        ok = bool(got.get(v['name'])) or len(v['fields']) == 1 and bool(got.get('newtype'))
        ck.ob(V, ok, 'the alternative can be read')
        for r in got.get(v['name'], []):
            if v['fields'] and not all(show(field(r, f[0])).startswith('ReadUnion') for f in v['fields']):
                decoded(ck, V, r, v['fields'], {})
    return True


def files(ck):
    p = ck.p
    where = {}
    for st, part in (('MemStash', 'stash'), ('MemState', 'state'), ('MemIndex', 'index')):
        for nm in ('load', 'store'):
            fs = [f for f in p.by_name[nm] if str(f.selfadt).endswith('FsBinStore') and re.search(r'\b%s>' % st, f.path)]
            ck.ob('FsBinStore', len(fs) == 1, '%s of the %s' % (nm, part))
            for f in fs:
                S = 'FsBinStore::%s of the %s' % (nm, part)
                g = ck.graph(G(p, f))
                es = [e for e in g.events(kind='call') if 'from_file' in e.name or 'to_file' in e.name or e.name.split('::')[0] in ('fs', 'File')]
                ck.ob(S, bool(es), 'a file is used')
                for e in es:
                    ps = sorted({x for a in e.args for x in re.findall(r'\$0\.(\w+)', show(a))})
                    ck.ob(S, len(ps) == 1, 'one file is used: %s' % ps, loc=e.loc)
                    where.setdefault(part, set()).update(ps)
                    if nm == 'store' and 'to_file' in e.name:
                        ck.ob(S, m(e.args[0], '$1'), 'the given store is written: %s' % show(e.args[0]), loc=e.loc)
                for n, r in g.rets():
                    if nm == 'store':
                        for a in alts(r):
                            ck.ob(S, m(a, ['Result::Ok(())', 'Result::Ok(*)', 'Result::Err(*', '*to_file(*']), 'gives the result of writing: %s' % show(a))
                if nm == 'store':
                    ws = [e for e in es if 'to_file' in e.name]
                    ck.hold(S, g.ret_only_if('Result::Ok*', ['*to_file($1, *) is Ok']), 'success means the file was written')
    ck.ob('FsBinStore', all(len(x) == 1 for x in where.values()) and len(set().union(*where.values())) == 3, 'each store has a file of its own: %s' % where)
    g = ck.graph(G(p, p.find('new', 'FsBinStore')))
    for r in oks(g):
        vals = [show(field(r, f)) for f in ('stash', 'state', 'index')]
        ck.ob('FsBinStore::new', len(set(vals)) == 3 and all('$0' in v for v in vals), 'three different files in the given directory: %s' % vals)


def copies(ck):
    p = ck.p
    for st in ('MemStash', 'MemState', 'MemIndex', 'Stash', 'State', 'Index', 'Stock'):
        S = st + '::clone_no_persistence'
        adt = p.adt(st)
        g = ck.graph(G(p, p.find('clone_no_persistence', st, 'CloneNoPersistence')))
        for n, r in g.rets():
            for f in p.adts[adt]['variants'][0]['fields']:
                t = field(r, f[0])
                if skipped(f):
                    ck.ob(S, m(t, ['Option::None', 'default<*', 'default:*']), 'a copy is not linked to the files: %s' % show(t))
                elif f[1].startswith(('std::marker', 'core::marker')):
                    continue
                else:
                    src = '$0.' + f[0]
                    inner = t.op == 'agg' and len(t.a[2]) and all(show(x) in (src + '.' + n, '*clone_no_persistence(%s.%s)' % (src, n)) or 'Phantom' in show(x) for n, x in t.a[2])
                    ck.ob(S, m(t, [src, 'CloneNoPersistence::clone_no_persistence(%s)' % src]) or inner, 'the field %s is copied: %s' % (f[0], cutstr(show(t), 200)))
    for st in ('MemStash', 'MemState', 'MemIndex'):
        for nm, w in (('persistence', ['Option::None', 'Option::Some(*$0.persistence@Some*)', '$0.persistence']),
                      ('persistence_mut', ['Option::None', 'Option::Some(*$0.persistence@Some*)', '&mut<$0.persistence*>']), ('as_mut_persistence', ['&mut<$0.persistence>', '$0.persistence'])):
            S = '%s::%s' % (st, nm)
            g = ck.graph(G(p, p.find(nm, st, 'Persisting')))
            for n, r in g.rets():
                for a in alts(r):
                    ck.ob(S, m(a, w), 'gives the link of the store to its files: %s' % show(a))
            if nm != 'as_mut_persistence':
                ck.hold(S, g.ret_only_if('Option::None', ['$0.persistence is None']), 'a link which is there is given')


def check(ck):
    p = ck.p
    enc = {f.selfadt: f for f in p.by_name['strict_encode'] if f.trait and f.trait.endswith('StrictEncode')}
    dec = {f.selfadt: f for f in p.by_name['strict_decode'] if f.trait and f.trait.endswith('StrictDecode')}
    done = []
    for adt in sorted(x for x in enc if x in dec and x in p.adts):
        if binary(ck, adt, enc[adt], dec[adt]):
            done.append(adt.split('::')[-1])
    for x in MUST:
        ck.ob(x, x in done, 'the binary form of %s is analysed' % x)
    files(ck)
    copies(ck)
