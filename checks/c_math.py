"""Modular arithmetic, ranges, plane geometry, container helpers."""
from itertools import product
from check import prop
from interp import *
from c_util import *


def nf(x, m, cache=None):
    """polynomial congruent to x modulo the atom m: inner reductions by m are dropped, multiples of m vanish"""
    cache = {} if cache is None else cache

    def sub(s):
        if s in cache:
            return cache[s]
        r = None
        if s.op == "mod" and len(s.args) == 2 and s.args[1] == m:
            r = nf(s.args[0], m, cache)
        elif P.a(s) == m:
            r = ZERO
        cache[s] = r
        return r
    return x.subst(sub)


def reduced(c, rule, k, q, m, want, detail):
    """result is in [0, m) and congruent to want"""
    r = q.val
    if not isinstance(r, P):
        c.undecided(rule, k, detail)
        return
    u = unmod(q)
    c.expect((q.facts.entails(c_le(ZERO, r, "i")) and q.facts.entails(c_lt(r, m, "i"))) or u, rule, k, detail + ": not known to lie in [0, mod): %s" % (str(r)[:80],))
    d = nf(r - want, m)
    c.expect(d.const() == 0 or u, rule, k, detail + ": not congruent to the specified value, difference %s" % (str(d)[:80],))


@prop("R25", 300)
def r25(c):
    """modular arithmetic"""
    c.rule("applyMod", "for mod > 0 applyMod(x, mod) lies in [0, mod) and is congruent to x")
    c.rule("mulMod", "mulMod(a, b, mod) lies in [0, mod) and is congruent to a*b, without overflow of intermediate results")
    c.rule("powMod", "powMod(b, e, mod) lies in [0, mod) and is congruent to b^e, without overflow of intermediate results")
    c.rule("euclid", "extendedEuclid returns d with a*x + b*y = d, by induction on the recursion that ends in gcd(0, b) = b")
    c.rule("multInv", "multInv(n, mod) is -1 if the gcd differs from 1, and otherwise lies in [0, mod) with n*multInv congruent to 1")
    c.rule("refusal", "mod <= 0 and negative exponents throw std::domain_error, nothing else does")
    p = prog()
    I = interp(p)
    a, b, m = X(0, I64, "a"), X(0, I64, "b"), X(0, I64, "m")
    pos = c_lt(ZERO, m, "i")
    for q in paths(c, I, p, "aMod", lambda st: [st.facts.assume(pos), [a, m]][1]):
        if q.kind != "return":
            c.bad("applyMod", "applyMod", str(q.kind))
            continue
        reduced(c, "applyMod", "applyMod", q, m, a, "applyMod(a, m)")
    for q in paths(c, I, p, "mMod", lambda st: [a, b, m]):
        modular(c, "mulMod", "mulMod", q, m, a * b, "mulMod(a, b, m)", True)
    ex = list(range(0, 41)) + [63, 64, 100, 127, 255, 256, 1023, 1024, 1365, 65535, 65536, (1 << 18) + 1]
    if c.thorough:
        ex += list(range(41, 260)) + [(1 << k) - d for k in range(11, 26) for d in (0, 1)]
    for e in ex:
        # b^e as a product of powers the normal form can hold: the exponent of the single atom
        for q in paths(c, I, p, "pMod", lambda st: [a, P.c(e), m]):
            modular(c, "powMod", "powMod", q, m, power(a, e), "exponent %d" % e, True)
    for e in (-1, -2, -(1 << 63)):
        for q in paths(c, I, p, "pMod", lambda st: [a, P.c(e), m]):
            c.expect((q.kind == "throw" and q.val[1] == "std::domain_error") or unmod(q), "refusal", "powMod", "exponent %d is not refused: %s" % (e, q.kind))
    euclid(c, I, p, a, b, m)


def power(a, e):
    s = a.atom()
    return P({((s, e),): 1}) if e else ONE


def modular(c, rule, k, q, m, want, detail, nonneg):
    v = q.facts.query(c_lt(ZERO, m, "i"))
    if q.kind == "throw":
        c.expect((v is False and q.val[1] == "std::domain_error") or unmod(q), "refusal", k, detail + ": throws %s although mod may be positive" % (q.val[1],))
        return
    c.expect(v is True or unmod(q), "refusal", k, detail + ": mod <= 0 is not refused")
    if q.kind != "return":
        c.undecided(rule, k, detail + ": " + str(q.kind))
        return
    if v is True:
        reduced(c, rule, k, q, m, want, detail)


def euclid(c, I, p, a, b, m):
    D, X1, Y1 = X(0, I64, "D"), X(0, I64, "X1"), X(0, I64, "Y1")
    calls = []

    def h(I, st, f, obj, args, e, fr):
        vs = [I.rv(st, x) for x in args[:2]]
        st.ev.append(("ee",) + tuple(vs))
        for v, l in zip((X1, Y1), args[2:]):
            I.write(st, l, v)
        return [(st, D)]
    I.hooks["details::extendedEuclid"] = h
    fs = p.find("details::extendedEuclid", all=True)
    if len(fs) != 1 or len(fs[0]["ps"]) != 4:
        c.undecided("euclid", "details::extendedEuclid", "%d functions of that name" % len(fs))
        return
    st = State()
    lx, ly = put(st, UNINIT, "x"), put(st, UNINIT, "y")
    for q in I.run(fs[0], None, [a, b, lx, ly], st):
        k = "details::extendedEuclid"
        if q.kind != "return":
            c.undecided("euclid", k, str(q.kind))
            continue
        x, y = I.read(q.st, lx), I.read(q.st, ly)
        rec = [e for e in q.ev if e[0] == "ee"]
        if not rec:
            if q.facts.query(c_eq(a, ZERO, "i")) is not True:
                c.undecided("euclid", k, "returns without recursion for non-zero first argument")
                continue
            ident = a * x + b * y - q.val
            ident = ident.subst(lambda s: ZERO if P.a(s) == a else None)
            c.expect((ident.const() == 0 and q.val == b) or unmod(q), "euclid", k, "base case: %s, x=%s, y=%s" % (q.val, x, y))
            continue
        if len(rec) != 1:
            c.undecided("euclid", k, "several recursive calls")
            continue
        u, w = rec[0][1:]
        # b = a*div(b,a) + mod(b,a); the recursion preserves the set of common divisors and its invariant is u*X1 + w*Y1 = D
        qd, r = P.a(Sym("div", (b, a), I64)), P.a(Sym("mod", (b, a), I64))
        rem = lambda t: t.subst(lambda s: b - a * qd if P.a(s) == r else None)
        ok1 = rem(u) == rem(r) and w == a
        c.expect(ok1 or unmod(q), "euclid", k, "recursion on (%s, %s) instead of (b mod a, a)" % (u, w))
        if ok1:
            lhs = rem(a * x + b * y)
            c.expect((lhs - rem(u * X1 + w * Y1)).const() == 0 or unmod(q), "euclid", k, "a*x + b*y differs from the invariant of the recursive call by %s" % (lhs - rem(u * X1 + w * Y1)))
            c.expect(q.val == D or unmod(q), "euclid", k, "returns %s instead of the common divisor" % (q.val,))
            c.expect(q.facts.query(c_eq(a, ZERO, "i")) is False or unmod(q), "euclid", k, "divides by a first argument that may be zero")
    for q in paths(c, I, p, "inv", lambda st: [a, m]):
        rec = [e for e in q.ev if e[0] == "ee"]
        v = q.facts.query(c_lt(ZERO, m, "i"))
        if q.kind == "throw":
            c.expect((v is False and q.val[1] == "std::domain_error") or unmod(q), "refusal", "multInv", "throws for positive mod")
            continue
        c.expect(v is True or unmod(q), "refusal", "multInv", "mod <= 0 is not refused")
        if q.kind != "return" or len(rec) != 1 or v is not True:
            c.undecided("multInv", "multInv", "no single call of extendedEuclid")
            continue
        u, w = rec[0][1:]
        ok1 = w == m and q.facts.entails(c_le(ZERO, u, "i")) and q.facts.entails(c_lt(u, m, "i")) and nf(u - a, m).const() == 0
        c.expect(ok1 or unmod(q), "multInv", "multInv", "extended gcd of (%s, %s)" % (u, w))
        one = q.facts.query(c_eq(D, ONE, "i"))
        if one is None:
            c.bad("multInv", "multInv", "the result does not depend on the gcd being 1")
        elif one:
            reduced(c, "multInv", "multInv", q, m, X1, "inverse")
        else:
            c.expect((isinstance(q.val, P) and q.val.const() == -1) or unmod(q), "multInv", "multInv", "without inverse returns %s" % (q.val,))
    del I.hooks["details::extendedEuclid"]


# ---------------------------------------------------------------- ranges
def has_op(x, op):
    """a symbol with that operator occurs in the polynomial"""
    return any(s.op == op for s in x.atoms())


def listing(I, q):
    v = I.rv(q.st, q.val)
    n = models.sizeof(I, q.st, v) if isinstance(v, (Vec, Str)) else None
    if n is None or n.const() is None or n.const() > 4096:
        return None, n
    return [I.elem(q.st, v, P.c(i)) for i in range(n.const())], n


@prop("R28", 150)
def r28(c):
    """arithmetic sequences"""
    c.rule("range", "range(from, to, step) lists from, from+step, ... as long as the value is strictly before to in the direction of step, also at the ends of the integer range, and is empty otherwise")
    c.rule("size", "the number of elements of range(from, to) is to-from for every from < to and 0 otherwise")
    c.rule("step zero", "a step of zero throws std::domain_error, nothing else does")
    c.rule("thueMorse", "thueMorse(lower, upper) lists the parity of the number of one bits of lower..upper-1, and throws std::invalid_argument exactly if lower >= upper or lower < 0")
    p = prog()
    I = interp(p)
    a, b = X(0, I64, "a"), X(0, I64, "b")
    MN, MX = -(1 << 63), (1 << 63) - 1

    def ref(f, t, s):
        out, v = [], f
        while (v < t) if s > 0 else (v > t):
            out.append(v)
            v += s
        return out
    L = 9 if c.thorough else 7
    for d, s in product(range(-L, L + 1), (1, 2, 3, 5, -1, -2, -3, -5)):
        for q in paths(c, I, p, "rng3", lambda st: [a, a + P.c(d), P.c(s)]):
            want = ref(0, d, s)
            got, n = listing(I, q) if q.kind == "return" else (None, None)
            ok1 = got is not None and len(got) == len(want) and all(g == a + P.c(w) for g, w in zip(got, want))
            c.expect(ok1 or unmod(q), "range", "range(from, to, step)", "from a to a%+d by %d: %s" % (d, s, got if got is not None else q.kind))
    for d in range(-2, L):
        for q in paths(c, I, p, "rng2", lambda st: [a, a + P.c(d)]):
            got, n = listing(I, q) if q.kind == "return" else (None, None)
            c.expect((got is not None and got == [a + P.c(i) for i in range(max(0, d))]) or unmod(q), "range", "range(from, to)", "from a to a%+d: %s" % (d, got))
        for q in paths(c, I, p, "rng1", lambda st: [P.c(d)]):
            got, n = listing(I, q) if q.kind == "return" else (None, None)
            c.expect((got is not None and [g.const() for g in got] == list(range(max(0, d)))) or unmod(q), "range", "range(upper)", "to %d: %s" % (d, got))
    big = (1 << 61, (1 << 62) + 1, MX, 3 * (1 << 60), -(1 << 61), -(1 << 62) - 1, -MX)
    for f, t, s in product((MN, MN + 1, -1, 0, 5, MX - 1, MX), (MN, MN + 3, -7, 0, 1, MX - 2, MX), big):
        for q in paths(c, I, p, "rng3", lambda st: [P.c(f), P.c(t), P.c(s)]):
            got, n = listing(I, q) if q.kind == "return" else (None, None)
            ok1 = got is not None and [g.const() for g in got] == ref(f, t, s)
            c.expect(ok1 or unmod(q), "range", "range(from, to, step)", "from %d to %d by %d: %s" % (f, t, s, got if got is not None else q.kind))
    for q in paths(c, I, p, "rng3", lambda st: [a, b, ZERO]):
        c.expect((q.kind == "throw" and q.val[1] == "std::domain_error") or unmod(q), "step zero", "range", "step 0: %s" % q.kind)
    s = X(0, I64, "s")
    for q in paths(c, I, p, "rng3", lambda st: [a, b, s]):
        if q.kind == "throw":
            c.expect(q.facts.query(c_eq(s, ZERO, "i")) is True or unmod(q), "step zero", "range", "throws for a step other than zero")
    for q in paths(c, I, p, "rng2", lambda st: [a, b]):
        if q.kind == "cut":
            continue
        if q.kind != "return":
            c.bad("size", "range(from, to)", q.kind)
            continue
        v = I.rv(q.st, q.val)
        n = models.sizeof(I, q.st, v)
        for G, want in ((assuming(q.facts, c_lt(a, b, "i")), b - a), (assuming(q.facts, c_le(b, a, "i")), ZERO)):
            if G is not None:
                ok1 = G.query(c_eq(n, want, "i"))
                c.expect(ok1 or (None if ok1 is None and has_op(n, "w") else unmod(q)), "size", "range(from, to)", "has %s elements, specified %s" % (n, want))
    lo, up = X(0, I64, "lower"), X(0, I64, "upper")
    for q in paths(c, I, p, "thue", lambda st: [lo, up]):
        valid = assuming(q.facts, c_lt(lo, up, "i"), c_le(ZERO, lo, "i"))
        if q.kind == "throw":
            c.expect((valid is None and q.val[1] == "std::invalid_argument") or unmod(q), "thueMorse", "thueMorse", "throws %s for valid bounds" % q.val[1])
        elif q.kind == "return":
            c.expect(all(assuming(q.facts, x) is None for x in (c_le(up, lo, "i"), c_lt(lo, ZERO, "i"))) or unmod(q), "thueMorse", "thueMorse", "accepts an empty or negative interval")
            n = models.sizeof(I, q.st, I.rv(q.st, q.val))
            ok1 = q.facts.query(c_eq(n, up - lo, "i"))
            c.expect(ok1 or (None if ok1 is None and has_op(n, "w") else unmod(q)), "thueMorse", "thueMorse", "has %s elements" % n)
    N = 40 if c.thorough else 12
    for l0, n in [(0, N), (1, 5), (7, 3), (255, 4), ((1 << 62) - 2, 4), (MX - 3, 3), (0x123456789ABCDE, 5)]:
        for q in paths(c, I, p, "thue", lambda st: [P.c(l0), P.c(l0 + n)]):
            got, _ = listing(I, q) if q.kind == "return" else (None, None)
            c.expect((got is not None and [g.const() for g in got] == [bin(l0 + i).count("1") & 1 for i in range(n)]) or unmod(q), "thueMorse", "thueMorse", "from %d: %s" % (l0, got))
    for q in paths(c, I, p, "thue1", lambda st: [P.c(9)]):
        got, _ = listing(I, q) if q.kind == "return" else (None, None)
        c.expect((got is not None and [g.const() for g in got] == [bin(i).count("1") & 1 for i in range(9)]) or unmod(q), "thueMorse", "thueMorse(upper)", "%s" % (got,))


# ---------------------------------------------------------------- geometry
def pt(i):
    return Rec("pair", {"first": X(i, I64, "px"), "second": X(i, I64, "py")})


class Never(Exception):
    pass


def compile_cond(x, names):
    """python source of a term over coordinates; raises CantEval for foreign symbols"""
    def poly(v):
        ts = []
        for m, k in v.t.items():
            ts.append("*".join(["(%d)" % k] + [at(s) + ("**%d" % e if e > 1 else "") for s, e in m]))
        return "(" + ("+".join(ts) or "0") + ")"

    def at(s):
        if s in names:
            return names[s]
        a = s.args
        if s.op in ("le0", "lt0", "eq0"):
            return "(%s%s0)" % (poly(a[0]), {"le0": "<=", "lt0": "<", "eq0": "=="}[s.op])
        if s.op == "not":
            return "(1-(%s!=0))" % poly(a[0])
        if s.op in ("and", "or"):
            return "((%s!=0)%s(%s!=0))" % (poly(a[0]), "&" if s.op == "and" else "|", poly(a[1]))
        if s.op == "abs":
            return "abs(%s)" % poly(a[0])
        if s.op == "ite":
            return "(%s if %s else %s)" % (poly(a[1]), poly(a[0]), poly(a[2]))
        raise CantEval()
    return poly(x) if isinstance(x, P) else at(x)


def decision(ps, n):
    """function from coordinates to the set of results of the path summaries"""
    names, args = {}, []
    for i in range(n):
        for nm, v in (("px", "x"), ("py", "y")):
            names[Sym(nm, (i,), I64)] = "%s%d" % (v, i)
            args.append("%s%d" % (v, i))
    lines = []
    for q in ps:
        conds = []
        for s, t in q.facts.at.items():
            conds.append(("" if t else "not ") + compile_cond(s, names))
        res = repr(q.val[1]) if q.kind == "throw" else "bool(" + compile_cond(q.val, names) + ")" if q.kind == "return" else "'?'"
        lines.append("    if %s: out.append(%s)" % (" and ".join(conds) or "True", res))
    env = {}
    exec("def f(%s):\n    out = []\n%s\n    return out" % (",".join(args), "\n".join(lines) or "    pass"), env)
    return env["f"]


def cr(p, a, b):
    return (a[0] - p[0]) * (b[1] - p[1]) - (a[1] - p[1]) * (b[0] - p[0])


def spec_convex(pts, strict=False):
    n = len(pts)
    if n < 3:
        return False
    area = sum(pts[i - 1][0] * pts[i][1] - pts[i - 1][1] * pts[i][0] for i in range(n))
    if area <= 0:
        return False
    if len(set(pts)) < n:
        return False
    for i in range(n):
        a, b = pts[i], pts[(i + 1) % n]
        if any(cr(a, b, x) < 0 for x in pts):
            return False
        if strict and cr(a, b, pts[(i + 2) % n]) == 0:
            return False
    return True


# polygons that turn left everywhere but go round more than once
_C5 = [(0, 2), (-2, 1), (-1, -1), (1, -1), (2, 1)]
_C7 = [(0, 0), (3, 0), (5, 2), (5, 4), (3, 6), (1, 6), (-1, 3)]
STARS = {5: [tuple(_C5[(2 * i + k) % 5] for i in range(5)) for k in range(5)],
         6: [((0, 0), (4, 0), (0, 4), (1, 1), (2, 1), (1, 2))[k:] + ((0, 0), (4, 0), (0, 4), (1, 1), (2, 1), (1, 2))[:k] for k in range(6)],
         7: [tuple(_C7[(d * i + k) % 7] for i in range(7)) for k in range(7) for d in (2, 3)]}


def spec_ccw(pts):
    n = len(pts)
    return sum(pts[i - 1][0] * pts[i][1] - pts[i - 1][1] * pts[i][0] for i in range(n)) > 0


@prop("R29", 300)
def r29(c):
    """plane geometry"""
    c.rule("products", "dot, cross and the three-point cross are the bilinear forms of the definition for pairs, tuples, arrays, complex numbers and structs with x and y")
    c.rule("sign", "sign is -1, 0 or 1 as the value is negative, zero or positive; dist is the absolute difference, also of unsigned values")
    c.rule("orientation", "isCCW holds exactly if the signed area is positive")
    c.rule("convex", "isConvex holds exactly for polygons of positive area with pairwise distinct points all of which lie on or left of every edge; isStrictlyConvex additionally demands that no three neighbours are collinear")
    c.rule("bounds", "coordinates beyond +-0x3FFFFFFF are refused with an exception, all others are accepted")
    p = prog()
    I = interp(p)
    QR = p.rec("drv::Q")["id"]
    co = lambda i: (X(i, I64, "px"), X(i, I64, "py"))
    mkP = lambda i: pt(i)
    mkQ = lambda i: Rec(QR, {"x": co(i)[0], "y": co(i)[1], "z": X(i, I64, "pz")})
    mkT = lambda i: Rec("tuple", {"0": co(i)[0], "1": co(i)[1]})
    mkA = lambda i: vec(list(co(i)))
    dotw = lambda a, b: a[0] * b[0] + a[1] * b[1]
    crw = lambda a, b: a[0] * b[1] - a[1] * b[0]
    cr3 = lambda o, a, b: crw((a[0] - o[0], a[1] - o[1]), (b[0] - o[0], b[1] - o[1]))
    for fn, mk, n, want in (("dotP", mkP, 2, dotw), ("crossP", mkP, 2, crw), ("cross3P", mkP, 3, cr3), ("dotQ", mkQ, 2, dotw), ("crossQ", mkQ, 2, crw), ("cross3Q", mkQ, 3, cr3),
                            ("dotT", mkT, 2, dotw), ("crossA", mkA, 2, crw)):
        for q in paths(c, I, p, fn, lambda st: [put(st, mk(i), "p%d" % i) for i in range(n)]):
            w = want(*[co(i) for i in range(n)])
            c.expect((q.kind == "return" and isinstance(q.val, P) and (q.val - w).const() == 0) or unmod(q), "products", fn, "is %s" % (q.val,))
            # the arguments keep their values
            for i in range(n):
                c.expect(I.read(q.st, Loc(("s", "p%d" % i))) == mk(i) or unmod(q), "products", fn, "changes its argument %d" % i)
    x, y = X(0, I64, "x"), X(0, I64, "y")
    u, w = X(0, U64, "u"), X(0, U64, "w")
    r = X(0, F80, "r")
    for fn, v, k in (("signI", x, "i"), ("signR", r, "f")):
        for q in paths(c, I, p, fn, lambda st: [v]):
            for G, (s,) in threeway(q.facts, [(v, ZERO)], k):
                val = resolve(G, q.val)
                c.expect((q.kind == "return" and val is not None and val.const() == s) or unmod(q), "sign", "sign", "value %s 0: %s" % ("<=>"[s + 1], val))
    for fn, a, b in (("distI", x, y), ("distU", u, w)):
        for q in paths(c, I, p, fn, lambda st: [a, b]):
            for G, (s,) in threeway(q.facts, [(a, b)]):
                want = b - a if s < 0 else a - b
                c.expect((q.kind == "return" and isinstance(q.val, P) and G.query(c_eq(q.val, want, "i")) is True) or unmod(q), "sign", "dist", "first %s second: %s" % ("<=>"[s + 1], q.val))
    B = 0x3FFFFFFF
    N = 6 if c.thorough else 5
    for fn, spec in (("ccw", spec_ccw), ("convex", spec_convex), ("sconvex", lambda t: spec_convex(t, True))):
        nm = {"ccw": "isCCW", "convex": "isConvex", "sconvex": "isStrictlyConvex"}[fn]
        rule = "orientation" if fn == "ccw" else "convex"
        for n in range(N + 1):
            ps = list(paths(c, I, p, fn, lambda st: [put(st, vec([pt(i) for i in range(n)]))]))
            if any(q.kind in ("return", "throw") and unmodelled(q.ev) or q.kind not in ("return", "throw") for q in ps):
                c.undecided(rule, nm, "%d points: unmodelled operations" % n)
                continue
            try:
                f = decision(ps, n)
            except CantEval:
                c.undecided(rule, nm, "%d points: summary has symbols without a value" % n)
                continue
            grid = [(i, j) for i in range(3) for j in range(3)] if n <= 3 or c.thorough and n == 4 else [(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1), (1, 2)] if n == 4 else [(0, 0), (2, 0), (3, 1), (2, 2), (1, 2), (1, 1), (1, 0)]
            bad = None
            tot = 0
            for pts in (list(product(grid if n < 6 else grid[:5], repeat=n))) + STARS.get(n, []):
                tot += 1
                got = f(*[v for t in pts for v in t])
                if got != [spec(list(pts))]:
                    bad = (pts, got)
                    break
            c.count("polygons decided on the path summaries", tot)
            c.expect(bad is None, rule, nm, "%d points: polygon %s yields %s" % (n, bad and bad[0], bad and bad[1]))
            for i in range(2 * n):
                for v in (B, -B, B + 1, -B - 1, 1 << 40, -(1 << 40)):
                    args = [k * k % 7 for k in range(2 * n)]
                    args[i] = v
                    got = f(*args)
                    thrown = len(got) == 1 and isinstance(got[0], str)
                    c.expect(len(got) == 1 and thrown == (abs(v) > B), "bounds", nm, "coordinate %d of %d points is %d: %s" % (i, n, v, got))


def resolve(F, v):
    """constant value of a sum of comparisons under facts"""
    if not isinstance(v, P):
        return None

    def f(s):
        if s.ty is BOOL:
            b = F.query(P.a(s))
            return None if b is None else P.c(int(b))
    return v.subst(f)


# ---------------------------------------------------------------- containers
@prop("R30", 60)
def r30(c):
    """container helpers"""
    c.rule("contains", "contains is true exactly if the key is in the map or set")
    c.rule("append", "append adds the elements of the second container in order at the end, also when both are the same object")
    c.rule("asFunction", "asFunction(c)(i) is c[i]; an lvalue is referred to, a temporary is owned")
    c.rule("flatten", "flatten lists the elements of the requested depth in order")
    c.rule("order", "shorter and longer compare sizes strictly; the comparator of MinPQ is the reverse of the given one")
    c.rule("points", "getX, getY, getZ read and write the named coordinate; convert keeps the coordinates")
    p = prog()
    I = interp(p)
    N = 3
    k = X(0, I64, "k")
    for n in range(N + 1):
        ks = [X(i) for i in range(n)]
        # keys of a set or map are distinct
        for fn, mk in (("hasS", lambda: models.mkassoc(ks)), ("has", lambda: models.mkassoc([Rec("pair", {"first": x, "second": X(i, I64, "v")}) for i, x in enumerate(ks)]))):
            def args(st):
                for i in range(n):
                    for j in range(i):
                        st.facts.assume(c_eq(ks[i], ks[j], "i"), False)
                return [put(st, mk(), "m"), k]
            for q in paths(c, I, p, fn, args):
                for G, cls in partitions(q.facts, ks + [k]):
                    judge(c, "contains", "contains", q, G, q.val, cls[-1] != n, "%d keys, key is %s" % (n, "present" if cls[-1] != n else "absent"))
    for n, m in product(range(N + 1), repeat=2):
        xs, ys = [X(i) for i in range(n)], [X(i, I64, "y") for i in range(m)]
        for q in paths(c, I, p, "app", lambda st: [put(st, vec(xs), "a"), put(st, vec(ys), "b")]):
            same(c, I, "append", "append(a, b)", q, xs + ys, Loc(("s", "a")))
            same(c, I, "append", "append(a, b)", q, ys, Loc(("s", "b")))
    for n in range(N + 1):
        xs = [X(i) for i in range(n)]
        for q in paths(c, I, p, "appSelf", lambda st: [put(st, vec(xs), "a")]):
            same(c, I, "append", "append(a, a)", q, xs + xs, Loc(("s", "a")))
        u, v = X(0, I64, "u"), X(0, I64, "w")
        for q in paths(c, I, p, "appArr", lambda st: [put(st, vec(xs), "a"), u, v]):
            same(c, I, "append", "append(a, array)", q, xs + [u, v], Loc(("s", "a")))
    xs = [X(i) for i in range(3)]
    for i in range(3):
        for fn, d in (("callF", 0), ("callT", 0), ("callRef", 1), ("callOwn", 0)):
            for q in paths(c, I, p, fn, lambda st: [vec(xs) if fn == "callT" else put(st, vec(xs)), P.c(i)]):
                c.expect((q.kind == "return" and isinstance(q.val, P) and (q.val - xs[i] - P.c(d)).const() == 0) or unmod(q), "asFunction", fn, "position %d yields %s" % (i, q.val))
        for q in paths(c, I, p, "own", lambda st: [put(st, vec(xs))]):
            roots = [x[1].loc.root if isinstance(x[1], RefV) else x[1].root for x in q.val.caps if isinstance(x[1], (RefV, Loc))] if isinstance(q.val, Clo) else None
            c.expect(None if roots is None else all(r[0] == "cap" for r in roots) or unmod(q), "asFunction", "asFunction(temporary)", "the result refers to a temporary that is gone")
    shapes1 = [[], [0], [2, 1], [0, 0, 3], [1, 2, 1]]
    cnt = [0]

    def fresh(n):
        r = []
        for _ in range(n):
            cnt[0] += 1
            r.append(X(cnt[0], I64, "e"))
        return r
    for n in range(N + 1):
        e = fresh(n)
        for fn in ("flat1", "flatOwn"):
            for q in paths(c, I, p, fn, lambda st: [put(st, vec(e))]):
                same(c, I, "flatten", "flatten", q, e)
    for sh in shapes1:
        rows = [fresh(n) for n in sh]
        for fn in ("flat2", "flatMove"):
            for q in paths(c, I, p, fn, lambda st: [put(st, vec([vec(r) for r in rows]))]):
                same(c, I, "flatten", "flatten", q, [x for r in rows for x in r])
    for sh in ([], [[]], [[1], [2, 0]], [[2, 1], [], [1]]):
        rows = [[fresh(n) for n in r] for r in sh]
        mk = lambda st: [put(st, vec([vec([vec(x) for x in r]) for r in rows]))]
        for q in paths(c, I, p, "flat3", mk):
            same(c, I, "flatten", "flatten", q, [x for r in rows for y in r for x in y])
        for q in paths(c, I, p, "flatRows", mk):
            v, _ = listing(I, q) if q.kind == "return" else (None, None)
            want = [y for r in rows for y in r]
            ok1 = v is not None and len(v) == len(want) and all(elements(I, q, g) == w for g, w in zip(v, want))
            c.expect(ok1 or unmod(q), "flatten", "flatten<rows>", "yields %s" % (v,))
    for n, m in product(range(3), repeat=2):
        for fn, w in (("shorterV", n < m), ("longerV", n > m)):
            for q in paths(c, I, p, fn, lambda st: [put(st, vec(fresh(n)), "a"), put(st, vec(fresh(m)), "b")]):
                judge(c, "order", fn, q, q.facts, q.val, w, "sizes %d and %d" % (n, m))
    a, b = X(0, I64, "a"), X(0, I64, "b")
    for fn, want in (("minPQ", 1), ("minPQg", -1)):
        for q in paths(c, I, p, fn, lambda st: [a, b]):
            for G, (s,) in threeway(q.facts, [(a, b)]):
                judge(c, "order", fn, q, G, q.val, s == want, "first %s second" % "<=>"[s + 1])
    pq = pt(0)
    QR = p.rec("drv::Q")["id"]
    for fn, mk, i, val in (("setX", pq, 0, None), ("setY", Rec(QR, {"x": X(0, I64, "px"), "y": X(0, I64, "py"), "z": X(0, I64, "pz")}), 1, None)):
        for q in paths(c, I, p, fn, lambda st: [put(st, mk, "p"), k]):
            r = I.read(q.st, Loc(("s", "p")))
            names = ["first", "second"] if fn == "setX" else ["x", "y", "z"]
            ok1 = isinstance(r, Rec) and all(r.get(nm) == (k if j == i else mk.get(nm)) for j, nm in enumerate(names))
            c.expect(ok1 or unmod(q), "points", fn, "leaves %s" % (r,))
    for q in paths(c, I, p, "getT", lambda st: [put(st, Rec("tuple", {str(i): X(i) for i in range(3)}), "t")]):
        c.expect((q.kind == "return" and q.val == X(2)) or unmod(q), "points", "getZ", "yields %s" % (q.val,))
    for fn, w in (("conv2x", "px"), ("conv2y", "py")):
        for q in paths(c, I, p, fn, lambda st: [put(st, pt(0), "p")]):
            c.expect((q.kind == "return" and q.val == X(0, I64, w)) or unmod(q), "points", "convert", "yields %s" % (q.val,))


def elements(I, q, v):
    v = I.rv(q.st, v)
    n = models.sizeof(I, q.st, v).const() if isinstance(v, Vec) else None
    return None if n is None else [I.elem(q.st, v, P.c(i)) for i in range(n)]


def same(c, I, rule, k, q, want, loc=None):
    if q.kind != "return":
        c.bad(rule, k, str(q.kind))
        return
    got = elements(I, q, I.read(q.st, loc) if loc is not None else q.val)
    c.expect(got == want or unmod(q), rule, k, "yields %s, specified %s" % (got, want))


# ---------------------------------------------------------------- primes
BASES = ({2, 325, 9375, 28178, 450775, 9780504, 1795265022}, {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37})
# composites that pass weaker tests: Carmichael numbers, strong pseudoprimes to the first bases, squares of primes
HARD = [561, 1105, 1729, 2047, 3277, 4033, 4681, 8321, 15841, 29341, 1373653, 25326001, 161304001, 960946321, 1157839381, 3215031751, 3697278427, 5764643587, 6770862367,
        2152302898747, 3474749660383, 341550071728321, 3825123056546413051, 9016733, 131 * 131, 137 * 137, 137 * 139, 65537 * 65537, 4294967291 * 2147483629 % (1 << 62) | 1]
LARGE = [137, 139, 149, 257, 65537, 104729, 1000003, 2147483647, 4294967291, 4294967311, 1000000007, 998244353, 2305843009213693951, 9223372036854775783, 1000000000000000003, 4611686018427387847]


def is_prime(n):
    """reference: trial division, then the first twelve bases"""
    if n < 2:
        return False
    for a in sorted(BASES[1]):
        if n % a == 0:
            return n == a
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in BASES[1]:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def factors(a):
    r, d = set(), 2
    while d * d <= a:
        while a % d == 0:
            r.add(d)
            a //= d
        d += 1
    return r | ({a} if a > 1 else set())


@prop("R26", 300)
def r26(c):
    """primality"""
    c.rule("constant", "isPrime of constants: every number up to 600 and special composites and primes of up to 63 bits")
    c.rule("accept", "isPrime accepts a number above the trial divisors only if it is a strong probable prime to all bases of a set for which no composite below 2^64 is one")
    c.rule("refuse", "isPrime refuses a number only if it has a divisor or fails a test that every prime passes")
    c.rule("list", "primes(lower, upper) lists exactly the primes p with lower <= p < upper in increasing order, whatever the number of primes that are sieved with")
    c.rule("memory", "primes(lower, upper) neither leaves its tables nor overflows, whatever the number of primes that are sieved with")
    c.rule("refusal", "lower >= upper throws std::invalid_argument, nothing else does")
    p = prog()
    I = interp(p)
    I.oob = "stop"
    I.rounds = 5000
    ns = list(range(-3, 600 if not c.thorough else 3000)) + [-(1 << 63), -7, -131, (1 << 63) - 1, (1 << 62), (1 << 32) - 1, (1 << 32) + 1] + HARD + LARGE
    for n in ns:
        try:
            qs = I.run(p.find("drv::prime"), None, [P.c(n)], State())
        except OutOfRange as e:
            c.bad("constant", "isPrime", "isPrime(%d): %s" % (n, e))
            continue
        c.count("constants")
        for q in qs:
            v = q.facts.query(q.val) if q.kind == "return" and isinstance(q.val, P) else None
            c.expect(None if v is None else v is is_prime(n), "constant", "isPrime", "isPrime(%d) is %s" % (n, v))
    for j in (1, 2, 3) if not c.thorough else (1, 2, 3, 4, 5, 7):
        witnesses(c, p, j)
    listings(c, p)


def witnesses(c, p, j):
    """n = 2^j (2k+1) + 1 above all trial divisors; one base at a time, the others pass"""
    k = P.a(Sym("k", (j,), I64))
    n = (k.scale(2) + ONE).scale(1 << j) + ONE
    d = k.scale(2) + ONE
    shape = "n = 2^%d*(2k+1)+1" % j

    def run(lo, hi, focus, other, trial=()):
        """paths with every power opaque whose (base, exponent) is in focus (None: none); n is no multiple of any trial divisor"""
        I = interp(p)
        arith = I.arith
        I.arith = lambda st, op, a, b, ty: ONE if op == "%" and isinstance(a, P) and a == n and isinstance(b, P) and b.const() in trial else arith(st, op, a, b, ty)

        def h(op):
            def g(I, st, f, obj, a, e, fr):
                vs = tuple(I.rv(st, x) for x in a)
                if not all(isinstance(v, P) for v in vs):
                    return None
                if all(v.const() is not None for v in vs):
                    return None
                if op == "mulmod" and str(vs[1]) < str(vs[0]):
                    vs = (vs[1], vs[0], vs[2])
                if op == "powmod":
                    st.ev.append((op,) + vs)
                    if vs[2] == n and vs[0].const() is not None and (vs[0].const(), vs[1] == d) != focus:
                        return [(st, ONE if vs[1] == n - ONE else other)]
                if op == "mulmod" and vs[0] == vs[1] == n - ONE and vs[2] == n:
                    return [(st, ONE)]
                r = P.a(Sym(op, vs, U64))
                st.facts.assume(c_le(ZERO, r, "i"), True)
                st.facts.assume(c_le(r, vs[2] - ONE, "i"), True)
                return [(st, r)]
            return g
        I.hooks["details::powMod"] = h("powmod")
        I.hooks["details::mulMod"] = h("mulmod")
        st = State()
        st.facts.assume(c_le(ZERO, k, "i"), True)
        st.facts.assume(c_le(P.c(lo), n, "i"), True)
        st.facts.assume(c_le(n, P.c(hi), "i"), True)
        qs = I.run(p.find("drv::prime"), None, [n], st)
        c.count("paths", len(qs))
        return qs
    ranges = [(1 << 31, (1 << 63) - 1)] + ([(200, (1 << 31) - 1)] if j == 1 else [])
    for lo, hi in ranges:
        bases, trial = [], set()
        for q in run(lo, hi, None, ONE):
            if q.kind == "return" and isinstance(q.val, P) and q.facts.query(q.val) is False:
                div = {x for x in range(3, 200, 2) if divides(q.facts, x, n)}
                trial |= {x for x in div if is_prime(x)}
                c.expect(bool(div) or None, "refuse", "isPrime", "refuses %s, which may divide by none of the trial divisors" % shape)
            for e in q.ev:
                if e[0] == "powmod" and e[1].const() is not None and e[3] == n:
                    x = (e[1].const(), e[2] == d)
                    if (e[2] == d or e[2] == n - ONE) and x not in bases:
                        bases.append(x)
        needed = set()
        for focus in bases:
            for other in (ONE, n - ONE):
                good, acc = True, 0
                for q in run(lo, hi, focus, other, trial):
                    F = q.facts
                    v = F.query(q.val) if q.kind == "return" and isinstance(q.val, P) else None
                    a = focus[0]
                    skip = a >= lo and F.query(c_eq(P.a(Sym("mod", (P.c(a), n), U64)), ZERO, "i")) is True
                    s = strong(F, a, d, n, j) if focus[1] else F.query(c_eq(P.a(Sym("powmod", (P.c(a), n - ONE, n), U64)), ONE, "i"))
                    if v is None:
                        c.undecided("accept", "isPrime", shape + ": the result is not known")
                    elif v:
                        acc += 1
                        good = good and (s is True or skip)
                        c.count("accepting paths")
                    else:
                        div = any(divides(F, x, n) for x in range(3, 200, 2) if x not in trial)
                        cop = all(x < 200 for x in factors(a)) or a < lo or F.query(c_eq(P.a(Sym("mod", (P.c(a), n), U64)), ZERO, "i")) is False
                        c.expect(div or (s is False and cop), "refuse", "isPrime", "refuses %s although it passes the test to the base %d" % (shape, a) if s is not False else "refuses %s, which may divide the base %d" % (shape, a))
                if good and acc and focus[1]:
                    needed.add((focus[0], other == ONE))
        ok = {a for a, o in needed if (a, not o) in needed}
        c.expect(True if any(B <= ok for B in BASES) else False if any(f for _, f in bases) else None, "accept", "isPrime", "%s is accepted if it is a strong probable prime to the bases %s" % (shape, sorted(ok)))


def divides(F, x, n):
    return F.query(c_eq(P.a(Sym("mod", (n, P.c(x)), I64)), ZERO, "i")) is True


def strong(F, a, d, n, j):
    """is n a strong probable prime to base a: True, False or None if the facts do not say"""
    v = P.a(Sym("powmod", (P.c(a), d, n), U64))
    if F.query(c_eq(v, ONE, "i")) is True:
        return True
    res = False if F.query(c_eq(v, ONE, "i")) is False else None
    for i in range(j):
        s = F.query(c_eq(v, n - ONE, "i"))
        if s is True:
            return True
        if s is None:
            res = None
        if i and F.query(c_le(v, ONE, "i")) is True:
            return res      # 0 or 1 stays so
        v = P.a(Sym("mulmod", (v, v, n), U64))
    if F.query(c_eq(v, n - ONE, "i")) is True:
        return True         # a^(n-1) is never -1 for odd n
    return res


def listings(c, p):
    I = interp(p)
    I.oob = "stop"
    I.rounds = 5000

    def h(I, st, f, obj, a, e, fr):
        v = I.rv(st, a[0])
        return [(st, P.c(int(is_prime(v.const()))))] if isinstance(v, P) and v.const() is not None else None
    I.hooks["isPrime"] = h
    M = (1 << 63) - 1
    wins = [(a, b) for b in range(0, 34) for a in range(-1, b) if c.thorough or a % 3 == 0 or b - a < 4 or a < 3]
    wins += [(x * x - d, x * x + e) for x in (5, 7, 11, 13) for d in (0, 1, 4) for e in (1, 2, 7)] + [(100, 160), (-50, 12), (-9, -2), (-1, 2), (1, 3), (2, 3), (0, 130), (113, 128), (1000, 1060)]
    tops = [(M - n, M - m) for n, m in ((1, 0), (2, 0), (3, 0), (26, 0), (27, 1), (61, 0), (62, 3), (120, 0))]
    caps = caplits(p)
    fs = p.find("primes", all=True)
    for cap in (None, 1, 2, 4, 6) if caps else (None,):
        old = [(x, x["cv"]) for x in caps]
        for x in caps if cap is not None else ():
            x["cv"] = type(x["cv"])(cap)
        try:
            for a, b in wins + tops:
                try:
                    qs = I.run(p.find("drv::primesIn"), None, [P.c(a), P.c(b)], State())
                except OutOfRange as e:
                    c.bad("memory", "primes", "primes(%d, %d)%s: %s" % (a, b, " sieving below %d" % cap if cap is not None else "", e))
                    continue
                c.count("windows")
                want = [x for x in range(max(2, a), b) if is_prime(x)]
                for q in qs:
                    if q.kind != "return":
                        c.expect(False if q.kind == "throw" else None, "list", "primes", "primes(%d, %d) ends with %s" % (a, b, q.kind))
                        continue
                    xs, _ = listing(I, q)
                    g = [x.const() if isinstance(x, P) else None for x in xs] if xs is not None else [None]
                    c.expect(None if None in g else g == want, "list", "primes", "primes(%d, %d)%s is %s" % (a, b, " sieving below %d" % cap if cap is not None else "", g[:12]))
                    c.ok("memory", "primes")
        finally:
            for x, v in old:
                x["cv"] = v
    for x in caps:
        v = int(x["cv"])
        c.expect(v * v <= M or None, "memory", "primes", "the square of the limit %d of the sieve does not fit" % v)
    for b in range(1, 30):
        for q in I.run(p.find("drv::primesTo"), None, [P.c(b)], State()):
            xs, _ = listing(I, q) if q.kind == "return" else (None, None)
            g = [x.const() if isinstance(x, P) else None for x in xs] if xs is not None else [None]
            c.expect(None if None in g else g == [x for x in range(2, b) if is_prime(x)], "list", "primes(upper)", "primes(%d) is %s" % (b, g))
    for a, b in ((5, 5), (5, 4), (0, 0), (-3, -3), (1, 0), (M, M), (7, -7)):
        for q in I.run(p.find("drv::primesIn"), None, [P.c(a), P.c(b)], State()):
            c.expect(q.kind == "throw" and q.val[1] == "std::invalid_argument" or (None if q.kind not in ("return", "throw") else False), "refusal", "primes", "primes(%d, %d) is not refused" % (a, b))


def caplits(p):
    """integer literals of primes() that limit the sieve"""
    out = []

    def walk(x):
        if isinstance(x, dict):
            try:
                if int(x.get("cv", 0)) >= 1 << 16:
                    out.append(x)
            except ValueError:
                pass
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    for f in p.find("primes", all=True):
        if f.get("body"):
            walk(f["body"])
    return out
