"""Texts of the properties; `python3 sa/spec.py` regenerates properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = {}


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, na=None, note=None):
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': qtext},
         'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}}
    if state:
        d['anchors']['state'] = state
    if observe:
        d['anchors']['observe_at'] = observe
    assert len(title) <= 80, (id, len(title))
    P.append((d, note))
    if na:
        NA[id] = na


from spec_texts import *  # noqa


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d, _ in P:
            f.write(json.dumps(d, ensure_ascii=False) + '\n')
    checks = []
    for d, note in P:
        if d['id'] in NA:
            continue
        checks.append({
            'property': d['id'],
            'quick_cmd': 'python3 sa/check.py %s' % d['id'],
            'thorough_cmd': 'python3 sa/check.py %s' % d['id'],
            'technique': 'static analysis: path-partitioned dataflow over rustc MIR with per-property obligations',
            'level': 'other',
            'level_note': note or (
                'Every obligation of the rule is decided on all paths of the analysed functions (joined dataflow, no '
                'execution, no solver). Trusts the rustc front end, the library models in /verif/models and the '
                'assumption that unmodelled dependency calls are functions of their arguments; unbounded in inputs, '
                'loop counts and histories.'),
        })
    man = {'version': 1, 'setup_cmd': 'python3 sa/extract.py', 'checks': checks,
           'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
           'notes': 'One technique family: static analysis. Each check type-checks /repo with a rustc-driver based '
                    'extractor (driver/), dumps MIR facts and evaluates rules (sa/props/<id>.py) over them.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write('\n')
    print('%d properties, %d claimed, %d not applicable' % (len(P), len(checks), len(NA)))


if __name__ == '__main__':
    main()
