"""affine forms of amounts and the affine facts given by comparisons

An amount is a linear form over named non-negative unknowns.  Conditions met on a path give forms known to be <= 0; a
form is known to be <= 0 if it is the sum of at most three of them up to a non-positive constant.  Nothing else is tried."""
import itertools
from terms import *


class Unknown(Exception):
    pass


def add(a, b, k=1):
    r = dict(a)
    for s, v in b.items():
        r[s] = r.get(s, 0) + k * v
        if r[s] == 0:
            del r[s]
    return r


def const(c):
    return {'': c} if c else {}


def forms_of(t, atom):
    """[(linear form, facts it needs)] of a term; atom(term) names the unknowns or gives a form itself"""
    x = atom(t)
    if x is not None:
        return [(x, [])]
    if t.op == 'int':
        return [(const(t.a[0]), [])]
    if t.op == 'agg' and len(t.a[2]) == 1:
        return forms_of(t.a[2][0][1], atom)
    if t.op == 'bin' and t.a[0] in ('Add', 'Sub'):
        k = 1 if t.a[0] == 'Add' else -1
        return [(add(x, y, k), p + q) for x, p in forms_of(t.a[1], atom) for y, q in forms_of(t.a[2], atom)]
    if t.op == 'field' and t.a[1] == '0' and t.a[0].op in ('call', 'phi'):
        return forms_of(t.a[0], atom)
    if t.op == 'phi':
        return [z for x in sorted(t.a[0], key=lambda z: z.id) for z in forms_of(x, atom)]
    if t.op == 'call' and len(t.a) == 3 and t.a[0].split('::')[-1] in ('saturating_sub', 'min', 'max'):
        nm = t.a[0].split('::')[-1]
        out = []
        for x, p in forms_of(t.a[1], atom):
            for y, q in forms_of(t.a[2], atom):
                le, ge = p + q + [add(x, y, -1)], p + q + [add(y, x, -1)]
                if nm == 'saturating_sub':
                    out += [({}, le), (add(x, y, -1), ge)]
                else:
                    out += [(x, le if nm == 'min' else ge), (y, ge if nm == 'min' else le)]
        return out
    raise Unknown(show(t))


def facts_of(l, atom):
    """forms known to be <= 0 when the condition was met: list of alternatives, None if it is not about amounts"""
    k, t, v = l
    if k != 'b' or t.op not in ('lt', 'eq'):
        return None
    try:
        out = []
        for x, p in forms_of(t.a[0], atom):
            for y, q in forms_of(t.a[1], atom):
                d = add(x, y, -1)
                if t.op == 'lt':
                    out.append(p + q + [add(d, const(1)) if v else add({}, d, -1)])
                elif v:
                    out.append(p + q + [d, add({}, d, -1)])
                else:
                    out.append(p + q)
        return out
    except Unknown:
        return None


def le0(d, facts, names):
    """is d <= 0 known?"""
    base = list(facts) + [{n: -1} for n in names]
    for k in range(4):
        for c in itertools.combinations_with_replacement(base, k):
            r = d
            for x in c:
                r = add(r, x, -1)
            if all(s == '' for s in r) and r.get('', 0) <= 0:
                return True
    return False


def possible(facts, names):
    """False if the facts exclude each other"""
    return not le0(const(1), facts, names)
