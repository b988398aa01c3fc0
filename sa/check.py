"""Runs the static rules of one property over /repo's current source.

  python3 sa/check.py <property> [...]

exit 0: all obligations hold; exit 1: VIOLATION printed; exit 2: no answer."""
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract  # noqa: E402
import program  # noqa: E402

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known():
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                d = {}
                rest = l[8:].strip()
                a, _, what = rest.partition(' :: ')
                prop, _, site = a.partition(' ')
                d['property'] = prop.split('=', 1)[1]
                d['site'] = site.strip()
                d['what'] = what.strip()
                out.append(d)
    return out


class Ck:
    """collects obligations of one property"""

    def __init__(self, prop, prog):
        self.prop = prop
        self.p = prog
        self.obs = []
        self.bad = []
        self.graphs = []
        self.counts = {}

    def ob(self, site, ok, msg, witness=None, loc=None):
        """site: stable key (no line numbers) of the construct judged"""
        self.obs.append((site, msg, bool(ok)))
        if not ok:
            self.bad.append({'site': site, 'message': msg, 'loc': loc, 'witness': witness or []})
        return bool(ok)

    def hold(self, site, res, msg, loc=None):
        ok, w = res
        return self.ob(site, ok, msg, w, loc)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def graph(self, g):
        self.graphs.append(g)
        return g


def run(prop, prog, info, tier, seed):
    t0 = time.time()
    mod = importlib.import_module('props.' + prop.lower())
    ck = Ck(prop, prog)
    mod.check(ck)
    kn = {d['site']: d for d in known() if d['property'] == prop}
    viol, sup = [], []
    for b in ck.bad:
        if b['site'] in kn:
            sup.append((b, kn[b['site']]))
        else:
            viol.append(b)
    floor = getattr(mod, 'FLOOR', 1)
    if len(ck.obs) < floor and not viol:
        raise program.AnchorError('%s: only %d obligations generated, at least %d expected' % (
            prop, len(ck.obs), floor))
    gs = [dict(g.stats(), function=g.where) for g in ck.graphs]
    cov = {
        'explanation': 'Static rule over the compiler\'s MIR of /repo\'s current sources. ' + (mod.RULE or '').strip(),
        'obligations': len(ck.obs),
        'obligations_held': sum(1 for o in ck.obs if o[2]),
        'sites': sorted({o[0] for o in ck.obs}),
        'functions_analysed': sum(g['functions'] for g in gs) + ck.counts.get('functions', 0),
        'analysed': gs,
        'graph_nodes': sum(g['nodes'] for g in gs),
        'graph_edges': sum(g['edges'] for g in gs),
        'call_sites': sum(g['call_sites'] for g in gs),
        'source_hash': info.get('tree_hash'),
        'facts': info.get('counts', {}),
        'known_findings_suppressed': [b['site'] for b, _ in sup],
    }
    cov.update({k: v for k, v in ck.counts.items() if k not in cov})
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'wall_s': round(time.time() - t0 + info.get('extract_s', 0), 3),
          'assumptions': getattr(mod, 'ASSUMPTIONS', []) + [
              'calls into dependency crates and trait-generic providers are summarised (by the models in '
              '/verif/models or as uninterpreted pure functions of their arguments)'],
          'violations': [dict(site=b['site'], message=b['message']) for b in viol]}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for b, k in sup:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if viol:
        rp = os.path.join(HERE, 'evidence', prop + '.violation.json')
        with open(rp, 'w') as f:
            json.dump({'property': prop, 'violations': viol}, f, indent=1)
        for b in viol:
            print('%s: %s%s' % (b['site'], b['message'], ' at %s:%s' % tuple(b['loc'][:2]) if b['loc'] else ''))
            for w in b['witness'][-12:]:
                print('    ' + str(w))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    print('%s: %d obligations hold (%d functions, %d graph nodes) in %.1fs' % (
        prop, len(ck.obs), cov['functions_analysed'], cov['graph_nodes'], ev['wall_s']))
    return 0


def main():
    tier = os.environ.get('VERIF_TIER', 'quick')
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    rc = 0
    try:
        facts, info = extract.load()
        prog = program.Program(facts)
    except Exception:
        traceback.print_exc()
        return 2
    for prop in sys.argv[1:]:
        try:
            r = run(prop, prog, info, tier, seed)
        except Exception:
            traceback.print_exc()
            r = 2
        rc = max(rc, r) if rc != 1 else 1
    return rc


if __name__ == '__main__':
    sys.exit(main())
