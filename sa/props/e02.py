"""files and armored text"""
from rules import *

RULE = '''MIR of the file and text forms of consignments and kits. On every path to a success of saving, the common prefix, the mark of the kind
and the content itself are written to the given place, in this order; loading succeeds only after both the prefix and the mark read from
the same place were found equal to these very values, and returns what is decoded after them. The file of any kind writes for each kind its
own mark, distinct from the others, and reads each kind under that mark only. Parsing text compares the flag inside with the kind asked for.
The headers of the text are traced to the version, kind, ids and names of the very content.'''
FLOOR = 40
PRE = '(82, 71, 66, 0)'
MG = 'const<rgbstd::containers::file::FileContent::MAGIC, [u8; 3]>'
STOP = ['*strict_read', '*strict_write', 'AsciiArmor::*']
WR, SW = 'Write::write_all', 'StrictEncode::strict_write'


def eq(x):
    """the value read from the file equals x"""
    def q(l):
        k, t, v = l
        if k == 'b' and v and t.op in ('eq', 'bin') or k == 'b' and v:
            s = show(t)
            return (s.startswith('(' + x + ' == ') or s.endswith(' == ' + x + ')')) and 'Read::read' in s
        return False
    return q


def byteeq(xs):
    """conditions byte by byte"""
    def mk_(i, b):
        def q(l):
            s = lit(l)
            return 'Read::read' in s and (s.endswith(' is %d' % b) or s.endswith('[%d] == %d)' % (i, b)) or s.endswith('[%d] is %d' % (i, b)) or
                                          s.startswith('(%d == ' % b) and s.endswith('[%d])' % i))
        return q
    return [mk_(i, b) for i, b in enumerate(xs)]


def needs(ck, S, g, pat_, const, what):
    r = g.ret_only_if(pat_, eq(const))
    if not r[0] and const[1:].split(',')[0].isdigit():
        for q in byteeq([int(x) for x in const.strip('()').split(',')]):
            ck.hold(S, g.ret_only_if(pat_, q), what)
        return
    ck.hold(S, r, what)


def saving(ck, S, g, content, magic):
    """writes prefix, mark and content in this order"""
    pre, mg, sw = E(WR, '$1', PRE), E(WR, '$1+<*', magic), E(SW, content, '*Writer*($1+<*')
    one = E(WR, '$1', None, pred=lambda e: show(e.args[1]).replace('), (', ', ') in (PRE + ' ++ ' + magic,))
    # prefix and mark written by a loop over both
    whole = lambda s: s.replace('slice(', '').replace(', RangeFull)', '')
    arr = E(WR, '$1*', None, pred=lambda e: whole(show(e.args[1])) == 'each([%s, %s])' % (PRE, magic) or
            sorted(whole(show(a)) for a in alts(e.args[1])) == sorted([PRE, magic]))
    src = next((show(l[1]) for _, _, ls in g.edges(lambda l: l[0] == 'none') for l in ls if l[0] == 'none' and whole(show(l[1])) == '[%s, %s]' % (PRE, magic)), None)
    if src:
        ck.hold(S, g.foreach(src, arr), 'the common prefix and the mark of the kind are written')
        ck.hold(S, g.must(lits=['end ' + src]), 'the common prefix and the mark of the kind are written')
        ck.hold(S, g.only_if(sw, ['end ' + src]), 'the content comes after the mark')
    else:
        ck.hold(S, g.must(anyof(pre, one)), 'the common prefix is written')
        ck.hold(S, g.must(anyof(mg, one)), 'the mark of the kind is written')
        ck.hold(S, g.only_if(mg, [], pre), 'the mark comes after the prefix')
        ck.hold(S, g.only_if(sw, [], anyof(mg, one)), 'the content comes after the mark')
    ck.hold(S, g.must(sw), 'the content is written')
    n = 0
    for e in g.events(kind='call'):
        if e.name.startswith('Write::write') or e.name == SW:
            n += 1
            ck.ob(S, pre(e) or mg(e) or one(e) or arr(e) or sw(e), 'nothing else is written: %s(%s)' % (e.name, ', '.join(cutstr(show(a)) for a in e.args)), loc=e.loc)
            bad = [x for x in g.edges(lambda l, e=e: l[0] == 'is' and l[2] == 'Err' and l[1] is e.res)]
            if bad:
                ck.hold(S, g.never_after(lambda l, e=e: l[0] == 'is' and l[2] == 'Err' and l[1] is e.res, target=g._okt()), 'a failure to write is reported', loc=e.loc)
            elif not any(r is e.res or e.res in alts(r) for _, r in g.rets()):
                ck.ob(S, False, 'a failure to write is reported', loc=e.loc)
    ck.ob(S, n >= 2, 'the file is written')


def loading(ck, S, g, kinds):
    """kinds: pattern of the success -> mark"""
    ck.ob(S, any(okval(r) for _, r in g.rets()), 'loading can succeed')
    for _, r in g.rets():
        for x in okval(r):
            hit = [k for k in kinds if m(x, k)]
            ck.ob(S, bool(hit), 'what is returned was decoded from the file: %s' % cutstr(show(x)))
    for k, mg in kinds.items():
        needs(ck, S, g, 'Result::Ok(%s)' % k, PRE, 'loading needs the common prefix')
        needs(ck, S, g, 'Result::Ok(%s)' % k, mg, 'loading needs the mark of the kind')


def check(ck):
    p = ck.p
    S = 'FileContent::load'
    # reading starts after the seven bytes of the head
    body = 'StrictDecode::strict_read(*Reader*($0+<*Read::read_exact*>))@Ok'
    g = ck.graph(G(p, p.find('load', intrait='FileContent'), STOP))
    loading(ck, S, g, {body: MG})
    S = 'FileContent::save'
    g = ck.graph(G(p, p.find('save', intrait='FileContent'), STOP))
    saving(ck, S, g, '$0', MG)
    # a file of any kind
    S = 'UniversalFile::save'
    adt = p.adt('UniversalFile')
    marks = {}
    for v, t in variant_terms(p, adt, mk('param', 0, '')):
        g = ck.graph(G(p, p.find('save', 'UniversalFile'), STOP, argterms=[t]))
        ws = [e for e in g.events(WR) if m(e.args[0], '$1+<*')]
        ms = {show(e.args[1]) for e in ws}
        ck.ob(S, len(ms) == 1, 'one mark is written for %s: %s' % (v, sorted(ms)))
        marks[v] = min(ms) if ms else '?'
        saving(ck, S, g, ['$0@%s' % v, '$0.%s' % v, '$0@%s.0' % v], marks[v])
    ck.ob(S, len(set(marks.values())) == len(marks), 'each kind has a mark of its own: %s' % marks)
    S = 'UniversalFile::load'
    g = ck.graph(G(p, p.find('load', 'UniversalFile'), STOP))
    loading(ck, S, g, {'UniversalFile::%s(%s)' % (v, body): x for v, x in marks.items()})
    for v in marks:
        ck.ob(S, any(mays(r, 'Result::Ok(UniversalFile::%s(*' % v) for _, r in g.rets()), 'a file with a %s can be loaded' % v)
    S = 'UniversalFile::fmt'
    for v, t in variant_terms(p, adt, mk('param', 0, '')):
        g = ck.graph(G(p, p.find('fmt', 'UniversalFile', 'Display'), STOP, argterms=[t]))
        for _, r in g.rets():
            ck.ob(S, mf(r, ['Display::fmt(AsciiArmor::*_armored*($0@%s), $1)' % v, '*write*($1, AsciiArmor::to_ascii_armored_string($0@%s))' % v]), 'the text is that of the content: %s' % cutstr(show(r)))
    # named files
    for S, ld, sv in (('FileContent', 'FileContent::load', 'FileContent::save'), ('UniversalFile', 'UniversalFile::load', 'UniversalFile::save')):
        kw = {'intrait': 'FileContent'} if S == 'FileContent' else {}
        def f(n):
            return p.find(n, **kw) if kw else p.find(n, S)
        g = ck.graph(G(p, f('load_file'), STOP + [ld]))
        for _, r in g.rets():
            for x in okval(r):
                ck.ob(S + '::load_file', m(x, ['%s(*File::open($0)*)@Ok' % ld, '%s(*fs::read($0)*)@Ok' % ld]), 'the named file is loaded: %s' % cutstr(show(x)))
            ck.ob(S + '::load_file', all(m(x, ['Result::*', '%s(*File::open($0)*)' % ld, '%s(*fs::read($0)*)' % ld]) for x in alts(r)), 'the named file is loaded: %s' % cutstr(show(r)))
        g = ck.graph(G(p, f('save_file'), STOP + [sv]))
        w = E(sv, '$0', '*File::create($1)@Ok*')
        ck.hold(S + '::save_file', g.must(w), 'the content is saved to the named file')
        for e in g.events(sv):
            ck.ob(S + '::save_file', any(r is e.res or e.res in alts(r) for _, r in g.rets()) or g.never_after(lambda l: l[0] == 'is' and l[2] == 'Err' and l[1] is e.res, target=g._okt())[0], 'a failure is reported', loc=e.loc)
    for S in ('FileContent',):
        g = ck.graph(G(p, p.find('load_armored', intrait=S), STOP))
        for _, r in g.rets():
            for x in okval(r):
                ck.ob(S + '::load_armored', m(x, 'AsciiArmor::from_ascii_armored_str(*read_to_string(*$0*)@Ok*)@Ok'), 'the named text is loaded: %s' % cutstr(show(x)))
        g = ck.graph(G(p, p.find('save_armored', intrait=S), STOP))
        w = E('fs::write', '$1', 'AsciiArmor::to_ascii_armored_string($0)')
        w = anyof(w, E('Write::write*', '*File::create($1)@Ok*', '*AsciiArmor::*_armored*($0)*'))
        ck.hold(S + '::save_armored', g.must(w), 'the text is saved to the named file')
        for e in g.events(['fs::write', 'Write::write*']):
            ck.ob(S + '::save_armored', g.edges(lambda l: l[0] == 'is' and l[2] == 'Err' and l[1] is e.res) and
                  g.never_after(lambda l: l[0] == 'is' and l[2] == 'Err' and l[1] is e.res, target=g._okt())[0] or
                  all(r is e.res for _, r in g.rets()), 'a failure to write is reported', loc=e.loc)
    # text of the right kind
    S = 'text of a consignment'
    g = ck.graph(G(p, p.find('from_str', 'Consignment'), STOP))
    tx = 'AsciiArmor::from_ascii_armored_str($0)@Ok'
    for _, r in g.rets():
        for x in okval(r):
            ck.ob(S, m(x, tx), 'the parsed consignment is returned: %s' % cutstr(show(x)))
    ck.hold(S, g.must(lits=['(%s.transfer == cparam<TRANSFER>)' % tx, '(cparam<TRANSFER> == %s.transfer)' % tx]), 'the flag inside is that of the kind asked for')
    g = ck.graph(G(p, p.find('from_str', 'Kit'), STOP))
    for _, r in g.rets():
        ck.ob('text of a kit', m(r, 'AsciiArmor::from_ascii_armored_str($0)'), 'the parsed kit is returned: %s' % cutstr(show(r)))
    for ty in ('Consignment', 'Kit'):
        g = ck.graph(G(p, p.find('fmt', ty, 'Display'), STOP))
        for e in g.events('AsciiArmor::*'):
            ck.ob('text of ' + ty, m(e.args[0], '$0'), 'the text is that of the content: %s' % cutstr(show(e.args[0])), loc=e.loc)
        ck.ob('text of ' + ty, bool(g.events('AsciiArmor::*')), 'the text is the armored one')
    headers(ck)
    S = 'Consignment::into_contract'
    g = ck.graph(G(p, p.find('into_contract', 'Consignment')))
    ck.ob(S, bool(g.rets()), 'a transfer can be turned into a contract')
    for _, r in g.rets():
        for x in alts(r):
            for f in p.adts[p.adt('Consignment')]['variants'][0]['fields']:
                v = show(field(x, f[0]))
                ck.ob(S, v == ('false' if f[0] == 'transfer' else '$0.' + f[0]), 'the contract has the same parts and is marked as a contract: %s is %s' % (f[0], cutstr(v)))


H = 'ArmorHeader::new'


def headers(ck):
    p = ck.p
    st = ['ArmorHeader::*', '*id', 'ConsignmentExt::*']
    S = 'headers of a consignment'
    g = ck.graph(G(p, p.find('armor_headers', 'Consignment'), st))
    for title, want in (('Version', '*$0.version*'), ('Contract', '*contract_id($0*)*'), ('Schema', '*schema_id($0*)*')):
        ck.hold(S, g.must(E(H, "'%s'" % title, want)), 'the header %s tells the one of the content' % title)
        for e in g.events(H, args=["'%s'" % title]):
            ck.ob(S, m(e.args[1], want), 'the header %s tells the one of the content: %s' % (title, cutstr(show(e.args[1]))), loc=e.loc)
    for val in (True, False):
        word = 'transfer' if val else 'contract'
        gg = ck.graph(G(p, p.find('armor_headers', 'Consignment'), st, split=lambda l: 'transfer' in lit(l)))
        es = gg.events(H, args=["'Type'"])
        ck.ob(S, bool(es), 'the header Type is present')
        hit = [e for e in es if mays(e.args[1], "'%s'" % word)]
        ck.ob(S, bool(hit), 'the type %s is told' % word)
        for e in hit:
            ck.ob(S, m(e.args[1], "'%s'" % word), 'the type is told for the kind')
            ck.hold(S, gg.only_if(lambda z, e=e: z is e, ['$0.transfer'] if val else ['!$0.transfer']), 'the type %s is told for that kind only' % word, loc=e.loc)
    for title, src in (('Interface', '$0.ifaces'), ('Terminal', '$0.terminals')):
        ev = E('ArmorHeader::*', "'%s'" % title, '*%s*' % src)
        ck.hold(S, g.must(ev, lits=['(0 == len(%s))' % src]), 'the header %s is present unless empty' % title)
    S = 'headers of a kit'
    g = ck.graph(G(p, p.find('armor_headers', 'Kit'), st))
    ck.hold(S, g.must(E(H, "'Version'", '*$0.version*')), 'the header Version tells the one of the content')
    ck.hold(S, g.must(E(H, "'Type-System'", '*id($0.types)*')), 'the header Type-System tells the one of the content')
    for title, src, want, params in (
            ('Schema', '$0.schemata', '*each($0.schemata).name*', {'id': '*schema_id(each($0.schemata))*', 'dev': '*each($0.schemata).developer*'}),
            ('Interface', '$0.ifaces', '*each($0.ifaces).name*', {'id': '*iface_id(each($0.ifaces))*', 'dev': '*each($0.ifaces).developer*'}),
            ('Implementation', '$0.iimpls', '*impl_id(each($0.iimpls))*', {'interface': '*each($0.iimpls).iface_id*', 'schema': '*each($0.iimpls).schema_id*', 'dev': '*each($0.iimpls).developer*'}),
            ('Alu-Lib', '$0.scripts', '*id(each($0.scripts))*', {})):
        ck.hold(S, g.foreach(src, E(H, "'%s'" % title, want)), 'each member gets its header %s' % title)
        put = E('add', None, pred=lambda e, title=title, want=want: m(e.args[1], ["ArmorHeader::new('%s', %s)" % (title, want), "ArmorHeader::new('%s', %s)[*" % (title, want)]))
        ck.hold(S, g.foreach(src, put), 'each header %s is listed' % title)
        for name, w in params.items():
            ck.hold(S, g.foreach(src, E('add', None, "('%s', %s)" % (name, w))), 'the header %s tells the %s of its member' % (title, name))
