"""Convex polyhedra over the rationals: consequences of the linear facts of a path by Fourier-Motzkin elimination."""
from fractions import Fraction

INF = float("inf")


def rows(F):
    """linear constraints a.x + c >= 0 (strict: > 0) of a Facts object; monomials count as variables"""
    out = []
    for f, (lo, ls, hi, hs) in F.iv.items():
        t = dict(f.t) if hasattr(f, "t") else dict(f)
        if lo != -INF:
            out.append((add(t, -Fraction(lo)), ls))
        if hi != INF:
            out.append((add({k: -v for k, v in t.items()}, Fraction(hi)), hs))
    return out


def add(t, c):
    r = {k: Fraction(v) for k, v in t.items()}
    one = next((k for k in r if not k), ())
    r[one] = r.get(one, Fraction(0)) + c
    return r


def const(t):
    return sum((v for k, v in t.items() if not k), Fraction(0))


def feasible(cs, limit=4000):
    """False if the constraints have no common solution, None if given up, True otherwise"""
    cs = [({k: v for k, v in t.items() if v and k}, const(t), s) for t, s in cs]
    while True:
        rest, seen = [], {}
        for t, c, s in cs:
            if not t:
                if c < 0 or (c == 0 and s):
                    return False
                continue
            m = max(abs(v) for v in t.values())
            key = tuple(sorted(((repr(k), v / m) for k, v in t.items())))
            o = seen.get(key)
            if o is None or (c / m, not s) < (o[1], not o[2]):
                seen[key] = ({k: v / m for k, v in t.items()}, c / m, s)
        cs = list(seen.values())
        if not cs:
            return True
        cnt = {}
        for t, c, s in cs:
            for k, v in t.items():
                p = cnt.setdefault(k, [0, 0])
                p[v > 0] += 1
        x = min(cnt, key=lambda k: (cnt[k][0] * cnt[k][1] - cnt[k][0] - cnt[k][1], repr(k)))
        up, dn = [c for c in cs if c[0].get(x, 0) < 0], [c for c in cs if c[0].get(x, 0) > 0]
        rest = [c for c in cs if x not in c[0]]
        if len(rest) + len(up) * len(dn) > limit:
            return None
        for a in up:
            for b in dn:
                ka, kb = b[0][x], -a[0][x]
                t = {k: a[0].get(k, 0) * ka + b[0].get(k, 0) * kb for k in set(a[0]) | set(b[0])}
                rest.append(({k: v for k, v in t.items() if v and k != x}, a[1] * ka + b[1] * kb, a[2] or b[2]))
        cs = rest


def nonneg(F, p, base=None):
    """True if p >= 0 follows from the facts"""
    cs = (base if base is not None else rows(F)) + [({k: -Fraction(v) for k, v in p.t.items()}, True)]
    return feasible(cs) is False
