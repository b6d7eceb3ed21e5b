"""Linear integer inequalities: emptiness of a polyhedron by Gaussian
elimination, Fourier-Motzkin projection and gcd tightening, and choice of an
integer point inside it.  A constraint is (dict var->coef, const) >= 0."""
from math import gcd

LIMIT = 400


def norm(c):
    d, k = c
    d = {v: x for v, x in d.items() if x}
    if not d:
        return (d, k)
    g = 0
    for x in d.values():
        g = gcd(g, abs(x))
    if g > 1:
        d = {v: x // g for v, x in d.items()}
        k = k // g  # floor: integer tightening
    return (d, k)


def _key(d):
    return frozenset(d.items())


def _dedup(cs):
    best = {}
    for d, k in cs:
        key = _key(d)
        o = best.get(key)
        if o is None or k < o[1]:
            best[key] = (d, k)
    return list(best.values())


def infeasible(cons, limit=LIMIT):
    """True: no integer point. False: not shown empty."""
    cs = []
    for c in cons:
        d, k = norm(c)
        if not d:
            if k < 0:
                return True
            continue
        cs.append((d, k))
    cs = _dedup(cs)
    while True:
        # equalities: pairs e>=0, -e>=0
        idx = {_key(d): k for d, k in cs}
        eqn = None
        for d, k in cs:
            nk = idx.get(_key({v: -x for v, x in d.items()}))
            if nk is not None:
                if nk + k < 0:
                    return True
                if nk + k == 0:
                    if any(abs(x) == 1 for x in d.values()):
                        eqn = (d, k)
                        break
        if eqn is None:
            break
        d, k = eqn
        v = next(v for v, x in d.items() if abs(x) == 1)
        s = d[v]
        # v = -(rest + k)/s
        rep = {u: -x * s for u, x in d.items() if u != v}
        rk = -k * s
        new = []
        for d2, k2 in cs:
            x = d2.get(v)
            if x:
                d3 = dict(d2)
                del d3[v]
                for u, y in rep.items():
                    d3[u] = d3.get(u, 0) + x * y
                c3 = norm((d3, k2 + x * rk))
                if not c3[0]:
                    if c3[1] < 0:
                        return True
                    continue
                new.append(c3)
            else:
                new.append((d2, k2))
        cs = _dedup(new)
    # Fourier-Motzkin
    work = 0
    while cs:
        work += len(cs)
        if work > 6 * limit:
            return False
        cnt = {}
        for d, k in cs:
            for v, x in d.items():
                p, n = cnt.get(v, (0, 0))
                cnt[v] = (p + 1, n) if x > 0 else (p, n + 1)
        v = min(cnt, key=lambda u: cnt[u][0] * cnt[u][1] - cnt[u][0] - cnt[u][1])
        pos = [c for c in cs if c[0].get(v, 0) > 0]
        negs = [c for c in cs if c[0].get(v, 0) < 0]
        rest = [c for c in cs if v not in c[0]]
        if len(pos) * len(negs) + len(rest) > limit:
            return False
        for dp, kp in pos:
            for dn, kn in negs:
                a, b = dp[v], -dn[v]
                d = {}
                for u, x in dp.items():
                    if u != v:
                        d[u] = d.get(u, 0) + b * x
                for u, x in dn.items():
                    if u != v:
                        d[u] = d.get(u, 0) + a * x
                c = norm((d, b * kp + a * kn))
                if not c[0]:
                    if c[1] < 0:
                        return True
                    continue
                rest.append(c)
        cs = _dedup(rest)
        # contradictory opposite pairs
        idx = {_key(d): k for d, k in cs}
        for d, k in cs:
            nk = idx.get(_key({u: -x for u, x in d.items()}))
            if nk is not None and nk + k < 0:
                return True
    return False


def var_bounds(cs, v, assign):
    """bounds on v from constraints whose other vars are assigned"""
    lo, hi = None, None
    for d, k in cs:
        x = d.get(v)
        if not x:
            continue
        t = k
        ok = True
        for u, y in d.items():
            if u == v:
                continue
            if u not in assign:
                ok = False
                break
            t += y * assign[u]
        if not ok:
            continue
        # x*v + t >= 0
        if x > 0:
            b = -(t // x)  # ceil(-t/x)
            lo = b if lo is None else max(lo, b)
        else:
            b = t // (-x)
            hi = b if hi is None else min(hi, b)
    return lo, hi


def project(cons, keep, limit=LIMIT):
    """eliminate every variable not in keep (over-approximation); None=empty"""
    cs = _dedup([norm(c) for c in cons if c[0]])
    while True:
        cand = set()
        for d, _ in cs:
            cand |= set(d) - keep
        if not cand:
            return cs
        cnt = {}
        for d, k in cs:
            for v, x in d.items():
                if v in cand:
                    p, n = cnt.get(v, (0, 0))
                    cnt[v] = (p + 1, n) if x > 0 else (p, n + 1)
        v = min(cnt, key=lambda u: cnt[u][0] * cnt[u][1] - cnt[u][0] - cnt[u][1])
        pos = [c for c in cs if c[0].get(v, 0) > 0]
        negs = [c for c in cs if c[0].get(v, 0) < 0]
        rest = [c for c in cs if v not in c[0]]
        if len(pos) * len(negs) > limit:
            cs = rest
            continue
        for dp, kp in pos:
            for dn, kn in negs:
                a, b = dp[v], -dn[v]
                d = {}
                for u, x in dp.items():
                    if u != v:
                        d[u] = d.get(u, 0) + b * x
                for u, x in dn.items():
                    if u != v:
                        d[u] = d.get(u, 0) + a * x
                c = norm((d, b * kp + a * kn))
                if not c[0]:
                    if c[1] < 0:
                        return None
                    continue
                rest.append(c)
        cs = _dedup(rest)
