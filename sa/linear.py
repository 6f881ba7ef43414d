"""Convex-polyhedra facts over integer atoms: entailment by Fourier-Motzkin elimination.

A constraint is (coeffs: dict atom -> int, const) and means  sum(coeff*atom) + const >= 0.
"""
from math import gcd


def norm(co, c):
    co = {k: v for k, v in co.items() if v}
    g = 0
    for v in co.values():
        g = gcd(g, abs(v))
    if g > 1:
        co = {k: v // g for k, v in co.items()}
        c = c // g          # integer tightening: floor
    return co, c


def add(e1, e2, k=1):
    co = dict(e1[0])
    for a, v in e2[0].items():
        co[a] = co.get(a, 0) + k * v
        if not co[a]:
            del co[a]
    return co, e1[1] + k * e2[1]


def infeasible(cons, limit=600):
    """True only if the constraints have no integer solution"""
    cs = []
    seen = set()

    def push(lst, co, c):
        co, c = norm(co, c)
        if not co:
            return c < 0
        key = (frozenset(co.items()), c)
        if key not in seen:
            seen.add(key)
            lst.append((co, c))
        return False
    for co, c in cons:
        if push(cs, co, c):
            return True
    while True:
        count = {}
        for co, _ in cs:
            for a, v in co.items():
                p = count.setdefault(a, [0, 0])
                p[v > 0] += 1
        if not count:
            return False
        a = min(count, key=lambda x: (count[x][0] * count[x][1] - sum(count[x]), repr(x)))
        pos = [x for x in cs if x[0].get(a, 0) > 0]
        neg = [x for x in cs if x[0].get(a, 0) < 0]
        rest = [x for x in cs if a not in x[0]]
        for p in pos:
            for n in neg:
                kp, kn = -n[0][a], p[0][a]
                co = {}
                for k, v in p[0].items():
                    co[k] = co.get(k, 0) + kp * v
                for k, v in n[0].items():
                    co[k] = co.get(k, 0) + kn * v
                if push(rest, co, kp * p[1] + kn * n[1]):
                    return True
        cs = rest
        if len(cs) > limit:
            return False
        if not cs:
            return False
