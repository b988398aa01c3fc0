"""Regenerates DESIGN.md: head text, one section per property, seeded bugs and edits tried."""
import glob
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'sa'))


def wrap(s, w=118):
    out, cur = [], ''
    for x in s.split():
        if cur and len(cur) + 1 + len(x) > w:
            out.append(cur)
            cur = ''
        cur = (cur + ' ' + x).strip()
    return '\n'.join(out + [cur])


def tried():
    r = {}
    for f in sorted(glob.glob(HERE + '/selftest/cases/*.py')):
        rec = []
        env = {'mut': lambda name, f, old, new, ids, expect=1, cnt=1: rec.append((name, ids, expect))}
        src = re.sub(r'^from mut import \*$', '', open(f).read(), flags=re.M)
        exec(compile(src, f, 'exec'), env)
        for name, ids, expect in rec:
            for i in ids.split():
                r.setdefault(i, ([], []))[0 if expect else 1].append(name)
    return r


def main():
    props = [json.loads(x) for x in open(HERE + '/properties.jsonl')]
    man = json.load(open(HERE + '/MANIFEST.json'))
    na = {x['property']: x['reason'] for x in man['not_applicable']}
    seeds = {}
    for d in sorted(glob.glob(HERE + '/seeded/*')):
        m = json.load(open(d + '/meta.json'))
        seeds.setdefault(m['property'], []).append((os.path.basename(d), m))
    known = [x.strip() for x in open(HERE + '/known-findings.txt') if not x.startswith('#')]
    t = tried()
    out = [open(HERE + '/sa/design_head.md').read().rstrip(), '', '## Properties', '']
    for p in props:
        i = p['id']
        out += ['### %s %s' % (i, p['title']), '']
        if i in na:
            out += ['Not applicable: ' + na[i], '']
            continue
        m = importlib.import_module('props.' + i.lower())
        out += ['**Analysed, and the oracle.** ' + m.RULE.strip().replace('\n', ' ')]
        out += ['**Bounds.** %s; at least %d obligations, else an analysis error.%s' % (
            getattr(m, 'BOUNDS', 'Common bounds; quantifies over ' + p['quantifier']['text']), m.FLOOR,
            ''.join(' Assumes: %s.' % a for a in getattr(m, 'ASSUMPTIONS', [])))]
        out += ['**Tests.** ' + p['why_tests_cant']]
        if i in seeds:
            out += ['**Seeded.** ' + '; '.join('`%s`: %s (%s)' % (n, d['what_it_breaks'], d.get('caught', 'caught'))
                                               for n, d in seeds[i]) + '.']
        if i in t:
            b, q = t[i]
            out += ['**Edits tried.** %d bugs reported%s; %d refactorings stay quiet%s.' % (
                len(b), ' (' + ', '.join(b) + ')' if b else '', len(q), ' (' + ', '.join(q) + ')' if q else '')]
        k = [x for x in known if ' property=%s ' % i in x]
        if k:
            out += ['**Defects of the original tree.** ' + ' '.join(
                ('Repaired in %s: %s.' % tuple(re.match(r'fixed: property=\w+ (\w+) (.*)', x).groups()))
                if x.startswith('fixed') else 'Known finding: ' + x.split('=', 1)[1].split(' ', 1)[1].replace(' :: ', ': ')
                + '.' for x in k)]
        out.append('')
    txt = []
    for x in out:
        if x.startswith('**'):
            txt += [wrap(x), '']
        else:
            txt.append(x)
    s = re.sub(r'\n{3,}', '\n\n', '\n'.join(txt)).rstrip() + '\n'
    open(HERE + '/DESIGN.md', 'w').write(s)


if __name__ == '__main__':
    main()
