"""Random numbers, sequences and their determinism."""
from itertools import product, permutations
from fractions import Fraction
from collections import Counter
import re
from check import prop
from interp import *
from c_util import *
import c_util
import models
from c_math import nf

_q = {}
ENGINE = "std::mersenne_twister_engine::operator()"
MIN64, MAX64 = -(1 << 63), (1 << 63) - 1


def rprog():
    if not _q:
        _q[0] = load("rand.cpp", [], "c++17", roots=ROOTS)
    return _q[0]


def engine(I):
    def h(I, st, f, obj, args, e, fr):
        if args:
            return None
        r = P.a(Sym("raw", (st.fresh(),), U64))
        st.ev = st.ev + [("raw", r)]
        return [(st, r)]
    t = I.p.glob("Random::details::randomNumberGenerator")["t"]
    cls = I.p.ty(t).get("r")
    for f in I.p.funcs.values():
        if f["n"] == "operator()" and f.get("cls") == cls:
            I.hooks[norm(f["q"])] = h


def throwing(st, what):
    st.ab = ("throw", what, Sym("exc", (what,)), 0)
    return (st, None)


def sources(I, enum=64):
    """the primitive samplers as abstract sources of values; ranges of at most enum constants are
    split into one state per value"""
    def hint(I, st, f, obj, args, e, fr):
        if len(args) != 2:
            return None
        lo, hi = [I.rv(st, x) for x in args]
        out = []
        for s, t in I.branch(st, c_lt(lo, hi, "i")):
            if not t:
                out.append(throwing(s, "std::invalid_argument"))
                continue
            for x in (lo, hi):
                b = s.facts.bounds(x)
                if not (b[0] >= MIN64 and b[1] <= MAX64):
                    s.ev = s.ev + [("overflow", x)]
            n = (hi - lo).const()
            if n is not None and n <= enum:
                for i in range(n):
                    z = s.fork() if i + 1 < n else s
                    z.ev = z.ev + [("draw", n, i)]
                    out.append((z, lo + P.c(i)))
                continue
            r = Sym("rnd", (s.fresh(),), I64)
            s.facts._add(P.a(r) - lo, lo=0)
            s.facts._add(hi - P.a(r), lo=1)
            s.ev = s.ev + [("draw", None, P.a(r), lo, hi)]
            out.append((s, P.a(r)))
        return out

    def hreal(I, st, f, obj, args, e, fr):
        if args:
            return None
        r = Sym("rndreal", (st.fresh(),), F80)
        st.facts._add(P.a(r), lo=0, hi=1, his=True)
        st.ev = st.ev + [("draw", None, P.a(r), ZERO, ONE)]
        return [(st, P.a(r))]

    def hbit(I, st, f, obj, args, e, fr):
        s = st.fork()
        st.ev, s.ev = st.ev + [("draw", 2, 0)], s.ev + [("draw", 2, 1)]
        return [(st, ZERO), (s, ONE)]
    I.hooks["Random::integer"] = hint
    I.hooks["Random::real"] = hreal
    I.hooks["Random::bit"] = hbit


def mass(q):
    """probability of a path: every draw is a single value or an interval of its range"""
    m = Fraction(1)
    for e in q.ev:
        if e[0] == "draw":
            if e[1] is not None:
                m /= e[1]
                continue
            # the values of this draw the path admits form an interval
            n = (e[4] - e[3]).const()
            lo, hi = q.facts.bounds(e[2] - e[3])
            if n is None or not 0 <= lo <= hi < n:
                return None
            m *= Fraction(int(hi) - int(lo) + 1, n)
    return m


def primality(I):
    def h(I, st, f, obj, args, e, fr):
        return [(st, P.a(Sym("isprime", (I.rv(st, args[0]),), BOOL)))]
    I.hooks["isPrime"] = h


def inrange(c, rule, k, q, lo, hi, detail, closed=False, kind="i"):
    v = q.val
    if not isinstance(v, P):
        c.undecided(rule, k, detail)
        return
    if lo is not None:
        c.expect(q.facts.entails(c_le(lo, v, kind)) or unmod(q), rule, k, detail + ": %s may lie below %s" % (str(v)[:120], lo))
    if hi is not None:
        c.expect(q.facts.entails((c_le if closed else c_lt)(v, hi, kind)) or unmod(q), rule, k, detail + ": %s may reach %s" % (str(v)[:120], hi))


@prop("N02", 60)
def n02(c):
    """range of every sampler"""
    c.rule("integer", "integer(), integer(u) and integer(l, u) lie in [-2^63, 2^63), [0, u), [l, u)")
    c.rule("real", "real(), real(u), real(l, u) lie in [0, 1), [0, u), [l, u)")
    c.rule("bounded", "normal, exponential, geometric and binomial with bounds, maximum, minimum, minmax and prime lie in [lower, upper)")
    c.rule("unbounded", "exponential and geometric are non-negative, binomial lies in [0, n]")
    c.rule("prime", "prime returns only numbers isPrime accepts")
    c.rule("discrete", "discrete yields the index of a weight that is not zero")
    p = rprog()
    I = interp(p)
    I.houdini = True
    engine(I)
    l, u, n = X(0, I64, "l"), X(0, I64, "u"), X(0, I64, "n")
    F = lambda nm: X(0, F80, nm)
    fl, fu, fm, fs, fp = F("fl"), F("fu"), F("mean"), F("dev"), F("p")

    def each(fn, args):
        for q in paths(c, I, p, fn, args if callable(args) else lambda st: list(args)):
            if q.kind == "return":
                yield q
            elif q.kind != "throw":
                c.undecided("bounded", fn, str(q.kind))
    for fn, a, lo, hi in (("int1", [u], ZERO, u), ("int2", [l, u], l, u)):
        for q in each(fn, a):
            inrange(c, "integer", fn, q, lo, hi, "integer")
    for q in each("bit0", []):
        inrange(c, "integer", "bit", q, ZERO, ONE, "bit", True)
    for q in each("real0", []):
        inrange(c, "real", "real", q, ZERO, ONE, "real()", kind="f")
    sources(I)
    primality(I)
    for fn, a, lo, hi in (("real1", [fu], ZERO, fu), ("real2", [fl, fu], fl, fu)):
        for q in each(fn, a):
            inrange(c, "real", "real", q, lo, hi, fn, kind="f")
    for q in each("normal4", [fl, fu, fm, fs]):
        inrange(c, "bounded", "normal", q, fl, fu, "normal", kind="f")
    for q in each("exp1", [fm]):
        inrange(c, "unbounded", "exponential", q, ZERO, None, "exponential", kind="f")
    for q in each("exp3", [fl, fu, fm]):
        inrange(c, "bounded", "exponential", q, fl, fu, "exponential", kind="f")
    for q in each("geo1", [fp]):
        inrange(c, "unbounded", "geometric", q, ZERO, None, "geometric")
    for q in each("geo3", [l, u, fp]):
        inrange(c, "bounded", "geometric", q, l, u, "geometric")
    for q in each("bin2", [n, fp]):
        inrange(c, "unbounded", "binomial", q, ZERO, n, "binomial", True)
    for q in each("bin4", [l, u, n, fp]):
        inrange(c, "bounded", "binomial", q, l, u, "binomial")
    for nm in ("max", "min", "minmax"):
        for k in [n] + [P.c(i) for i in (1, 2, 4, 5, 9)] + ([P.c(-i) for i in (1, 4, 5)] if nm == "minmax" else []):
            for fn, a, lo in ((nm + "2", [u, k], ZERO), (nm + "3", [l, u, k], l)):
                for q in each(fn, a):
                    inrange(c, "bounded", {"max": "maximum", "min": "minimum"}.get(nm, nm), q, lo, u, "n = %s" % k)
    for fn, a, lo in (("prime1", [u], ZERO), ("prime2", [l, u], l)):
        for q in each(fn, a):
            inrange(c, "bounded", "prime", q, lo, u, fn)
            v = q.val
            c.expect((isinstance(v, P) and q.facts.query(P.a(Sym("isprime", (v,), BOOL))) is True) or unmod(q), "prime", "prime", "returns %s without asking isPrime" % str(v)[:80])
    for fn, ws in (("discr1", [3]), ("discr3", [2, 0, 3]), ("discr4", [0, 1, 4, 0])):
        got = Counter()
        for q in each(fn, []):
            k = q.val.const() if isinstance(q.val, P) else None
            if k is None:
                c.undecided("discrete", fn, str(q.val)[:80])
            else:
                got[k] += mass(q)
        want = {i: Fraction(w, sum(ws)) for i, w in enumerate(ws) if w}
        c.expect(dict(got) == want, "discrete", "discrete", "weights %s: probabilities %s" % (ws, dict(got)))


# ---------------------------------------------------------------- uniformity
def outcome(I, q, read=None):
    """hashable result of a path whose values are constants or symbols"""
    v = I.rv(q.st, q.val if read is None else I.read(q.st, read))
    if isinstance(v, Str):
        return v.s
    if isinstance(v, Vec):
        n = v.n.const()
        if n is None:
            return None
        out = []
        for i in range(n):
            x = I.elem(q.st, v, P.c(i))
            if not isinstance(x, P):
                return None
            out.append(x.const() if x.const() is not None else x)
        return tuple(out)
    if isinstance(v, Rec):
        return tuple(v.get(k).const() if isinstance(v.get(k), P) and v.get(k).const() is not None else v.get(k) for k in sorted(v.fields))
    if isinstance(v, P):
        return v.const() if v.const() is not None else v
    return None


def distribution(c, I, p, rule, k, fn, args, want, detail, read=None, shift=None, uniform=True):
    """the outcomes of fn and their probabilities; want: collection of the possible outcomes"""
    got = Counter()
    um = None
    for q in paths(c, I, p, fn, args):
        um = um or unmodelled(q.ev)
        o = outcome(I, q, read) if q.kind == "return" else ("!", q.val[1] if q.kind == "throw" else q.kind)
        if shift is not None and isinstance(o, tuple) and o[:1] != ("!",):
            o = tuple((x - shift).const() if isinstance(x, P) else x for x in o)
        elif shift is not None and isinstance(o, P):
            o = (o - shift).const()
        m = mass(q)
        if o is None or m is None:
            c.undecided(rule, k, detail + ": the outcome depends on unknown values")
            return
        got[o] += m
    want = set(want)
    diff = [(o, m) for o, m in got.items() if o not in want]
    miss = [o for o in want if o not in got]
    bad = diff and "may yield %s" % (diff[0],) or miss and "never yields %s" % (miss[0],)
    if not bad and sum(got.values()) != 1:
        bad = "probabilities add up to %s" % sum(got.values())
    c.count("outcomes", len(got))
    if bad:
        c.expect(None if um else False, rule, k, detail + ": " + bad)
        return
    c.ok(rule, k, detail)
    if uniform:
        e = [(o, m) for o, m in got.items() if m != Fraction(1, len(want))]
        c.expect(not e or (None if um else False), rule, k, detail + ": outcome %s has probability %s instead of %s" % (e and e[0][0], e and e[0][1], Fraction(1, max(1, len(want)))))


def setup(p):
    I = interp(p)
    engine(I)
    sources(I)
    return I


def rejection(c, p, fn, a, lo, s, k):
    """multiply-shift with rejection of the surplus values: accepted exactly if the low word of
    x*s is at least 2^64 mod s"""
    I = interp(p)
    engine(I)
    t = P.c((1 << 64) % s.const()) if s.const() is not None else None
    for q in paths(c, I, p, fn, lambda st: list(a)):
        if q.kind == "throw":
            continue
        if q.kind != "return" or not isinstance(q.val, P):
            c.undecided("integer", k, str(q.kind))
            continue
        v = q.val - lo
        x = None
        if s.const() is not None and s.const() & (s.const() - 1) == 0:
            t = ZERO
        cand = [z for z in deep(v) if z.op in ("raw", "w") and z.ty is U64]
        if not cand and s.const() == 1:
            c.expect(v.const() == 0, "integer", k, "range of one value yields %s" % q.val)
            continue
        if len(set(cand)) != 1:
            c.undecided("integer", k, "%s does not depend on a single word of the engine" % str(v)[:80])
            continue
        x = P.a(cand[0])
        want = I.shr(q.st, x * s, 64)
        c.expect(want == v or q.facts.query(c_eq(want, v, "i")) is True or unmod(q), "integer", k, "%s is not the high word of word times range" % str(v)[:80])
        low = I.fit(q.st, x * s, U64)
        tt = t if t is not None else P.a(Sym("mod", (I.fit(q.st, -s, U64), s), U64))
        c.expect(q.facts.entails(c_le(tt, low, "i")) or unmod(q), "integer", k, "accepts words whose low product is below 2^64 mod range (range %s)" % s)
    for lid, (node, f, H, traces, st0) in I.loops.items():
        for b in traces:
            ws = {z for y in b.facts.at for z in deep(y) if z.op == "w" and z.ty is U64 and z.args[0] == lid}
            ok1 = None
            for z in ws:
                low = I.fit(b, P.a(z) * s, U64)
                tt = t if t is not None else P.a(Sym("mod", (I.fit(b, -s, U64), s), U64))
                ok1 = ok1 or b.facts.entails(c_lt(low, tt, "i"))
            c.expect(ok1, "integer", k, "rejects a word although its low product is at least 2^64 mod range (range %s)" % s)


def deep(v):
    if isinstance(v, P):
        for a in v.atoms():
            yield from deep(a)
    elif isinstance(v, Sym):
        yield v
        for a in v.args:
            yield from deep(a)


@prop("N03", 100)
def n03(c):
    """uniform choices"""
    c.rule("integer", "integer(l, u) is the high word of an engine word times the size of the range, and rejects exactly the words that would make some value more likely")
    c.rule("bit", "bit is the parity of an engine word")
    c.rule("select", "every element is selected with the same probability")
    c.rule("shuffle", "every permutation of the elements is equally likely and nothing else happens to them")
    c.rule("rotate", "every rotation is equally likely, rotates left and is returned")
    p = rprog()
    l, u = X(0, I64, "l"), X(0, I64, "u")
    big = [3, 5, 6, 7, 10, 12, 100, 1000003, (1 << 32) - 1, (1 << 32) + 1, (1 << 62) + 1, (1 << 63) - 1]
    for s in big + [1, 2, 4, 1 << 20, 1 << 62]:
        rejection(c, p, "int1", [P.c(s)], ZERO, P.c(s), "integer(u)")
    for lo, hi in ((MIN64, MAX64), (MIN64, 1), (-5, MAX64), (MIN64, MIN64 + 3)):
        rejection(c, p, "int2", [P.c(lo), P.c(hi)], P.c(lo), P.c(hi - lo), "integer(l, u)")
    I = interp(p)
    engine(I)
    for q in paths(c, I, p, "bit0", lambda st: []):
        raws = [e[1] for e in q.ev if e[0] == "raw"]
        ok1 = len(raws) == 1 and isinstance(q.val, P) and all(z.op in ("raw", "popcount", "shrk", "bor", "band") or isinstance(z, Sym) for z in deep(q.val))
        par = P.a(Sym("popcount", (raws[0],), U64)) if raws else None
        want = par - I.shr(q.st, par, 1).scale(2) if raws else None
        c.expect((ok1 and (q.val == want or q.facts.query(c_eq(q.val, want, "i")) is True)) or unmod(q), "bit", "bit", "is %s" % (str(q.val)[:80],))
    I = setup(p)
    N = 5 if c.thorough else 4
    for n in range(1, N + 1):
        xs = [X(i) for i in range(n)]
        for fn in ("selIt", "selC"):
            distribution(c, I, p, "select", "select", fn, lambda st: [put(st, vec(xs))], xs, "%d elements" % n)
        for fn in ("shufIt", "shufC"):
            distribution(c, I, p, "shuffle", "shuffle", fn, lambda st: [put(st, vec(xs), "a")], permutations(xs), "%d elements" % n, read=Loc(("s", "a")))
        for fn in ("rotIt", "rotC"):
            distribution(c, I, p, "rotate", "rotate", fn, lambda st: [put(st, vec(xs), "a")], range(n), "%d elements" % n)
            for q in paths(c, I, p, fn, lambda st: [put(st, vec(xs), "a")]):
                r = q.val.const() if q.kind == "return" and isinstance(q.val, P) else None
                o = outcome(I, q, Loc(("s", "a"))) if r is not None else None
                c.expect((r is not None and o == tuple(xs[r:] + xs[:r])) or unmod(q), "rotate", "rotate", "%d elements, returns %s: %s" % (n, r, o))
        q0 = [q for q in paths(c, I, p, "selRef", lambda st: [put(st, vec(xs), "a"), l])]
        outs = Counter(outcome(I, q, Loc(("s", "a"))) for q in q0)
        c.expect(set(outs) == {tuple(xs[:i] + [l] + xs[i + 1:]) for i in range(n)}, "select", "select", "assigning to the selected element: %s" % (list(outs)[:2],))
    for fn in ("shufIt", "shufC"):
        distribution(c, I, p, "shuffle", "shuffle", fn, lambda st: [put(st, vec([]), "a")], [()], "no elements", read=Loc(("s", "a")))
    a, b, d = X(0), X(1), X(2)
    for fn in ("selArr", "selList"):
        distribution(c, I, p, "select", "select", fn, lambda st: [a, b, d], [a, b, d], fn)
    for fn, sh, mk, fl in (("selPair", "shufPair", "pair", ("first", "second")), ("selComplex", "shufComplex", "complex", ("re", "im"))):
        R = Rec(mk, {fl[0]: a, fl[1]: b})
        distribution(c, I, p, "select", "select", fn, lambda st: [put(st, R)], [a, b], mk)
        S = tuple((a, b) if fl[0] < fl[1] else (b, a))
        distribution(c, I, p, "shuffle", "shuffle", sh, lambda st: [put(st, R, "a")], [S, S[::-1]], mk, read=Loc(("s", "a")))


# ---------------------------------------------------------------- sequences
def nodups(t):
    return len(set(t)) == len(t)


@prop("N05", 150)
def n05(c):
    """sequences of numbers"""
    c.rule("distinct", "distinct yields every sequence of count different values of the range with the same probability")
    c.rule("multiple", "multiple yields every sequence of count values of the range with the same probability")
    c.rule("sorted", "increasing and decreasing yield every strictly ordered sequence of the range with the same probability")
    c.rule("weakly sorted", "nonDecreasing and nonIncreasing yield exactly the weakly ordered sequences of the range")
    c.rule("weakly sorted uniform", "every weakly ordered sequence is equally likely")
    c.rule("refusal", "a negative count, and a range with fewer than count values for distinct values, throw std::invalid_argument; nothing else does")
    p = rprog()
    I = setup(p)
    l = X(0, I64, "l")
    N = 4 if c.thorough else 3
    kinds = [("distinct", nodups, "distinct", True), ("mult", lambda t: True, "multiple", True), ("inc", lambda t: nodups(t) and t == tuple(sorted(t)), "sorted", True),
             ("dec", lambda t: nodups(t) and t == tuple(sorted(t, reverse=True)), "sorted", True), ("ndec", lambda t: t == tuple(sorted(t)), "weakly sorted", False),
             ("ninc", lambda t: t == tuple(sorted(t, reverse=True)), "weakly sorted", False)]
    NAMES = dict(mult="multiple", inc="increasing", dec="decreasing", ndec="nonDecreasing", ninc="nonIncreasing")
    for fn, ok1, rule, uni in kinds:
        k = NAMES.get(fn, fn)
        for cnt in range(N + 1):
            for size in range(0 if cnt == 0 and fn in ("distinct", "inc", "dec") else 1, N + 2):
                dup = fn in ("mult", "ndec", "ninc")
                if size < cnt and not dup:
                    for q in paths(c, I, p, fn + "3", lambda st: [P.c(cnt), l, l + P.c(size)]):
                        c.expect((q.kind == "throw" and q.val[1] == "std::invalid_argument") or unmod(q), "refusal", k, "%d values of a range of %d: %s" % (cnt, size, q.kind))
                    continue
                want = [t for t in product(range(size), repeat=cnt) if ok1(t)]
                if len(want) > 700:
                    continue
                distribution(c, I, p, rule, k, fn + "3", lambda st: [P.c(cnt), l, l + P.c(size)], want, "%d of [l, l+%d)" % (cnt, size), shift=l, uniform=uni)
                distribution(c, I, p, rule, k, fn + "2", lambda st: [P.c(cnt), P.c(size)], want, "%d of [0, %d)" % (cnt, size), uniform=uni)
        if not uni:
            distribution(c, I, p, "weakly sorted uniform", k + "(2, 2)", fn + "2", lambda st: [P.c(2), P.c(2)], [t for t in product(range(2), repeat=2) if ok1(t)], "2 of [0, 2)")
        for cnt in (-1, -5):
            if dup:
                continue
            for q in paths(c, I, p, fn + "3", lambda st: [P.c(cnt), ZERO, P.c(4)]):
                c.expect((q.kind == "throw" and q.val[1] == "std::invalid_argument") or unmod(q), "refusal", k, "count %d: %s" % (cnt, q.kind))


@prop("N06", 60)
def n06(c):
    """permutations"""
    c.rule("perm", "perm(n, offset) yields every permutation of offset..offset+n-1 with the same probability")
    c.rule("cycles", "perm(cycles, offset) yields every permutation with exactly these cycle lengths with the same probability")
    c.rule("fixed points", "perm(n, fix, offset) yields every permutation that fixes all of fix with the same probability")
    c.rule("refusal", "a negative length, a cycle length below one and a fixed point outside of the range throw std::invalid_argument, nothing else does")
    p = rprog()
    I = setup(p)
    o = X(0, I64, "offset")
    N = 5 if c.thorough else 4

    def refused(fn, args, detail):
        for q in paths(c, I, p, fn, args):
            c.expect((q.kind == "throw" and q.val[1] == "std::invalid_argument") or unmod(q), "refusal", "perm", detail + ": %s" % q.kind)
    for n in range(N + 1):
        want = list(permutations(range(n)))
        distribution(c, I, p, "perm", "perm", "perm1", lambda st: [P.c(n)], want, "n = %d" % n)
        for off in (1, -7):
            distribution(c, I, p, "perm", "perm", "perm2", lambda st: [P.c(n), P.c(off)], [tuple(x + off for x in t) for t in want], "n = %d, offset %d" % (n, off))
        distribution(c, I, p, "perm", "perm", "perm2", lambda st: [P.c(n), o], want, "n = %d, any offset" % n, shift=o)
    for cyc in [(), (1,), (2,), (1, 1), (1, 2), (2, 1), (3,), (2, 2), (1, 1, 2), (4,), (1, 3)] + ([(5,), (2, 3), (1, 2, 2)] if c.thorough else []):
        n = sum(cyc)
        want = [t for t in permutations(range(n)) if cyclelens(t) == sorted(cyc)]
        for off in (0, 3, -2):
            distribution(c, I, p, "cycles", "perm(cycles)", "permC", lambda st: [put(st, vec([P.c(x) for x in cyc])), P.c(off)], [tuple(x + off for x in t) for t in want], "cycles %s, offset %d" % (list(cyc), off))
    for cyc in ((0,), (2, 0), (1, -1, 2), (0, 3)):
        refused("permC", lambda st: [put(st, vec([P.c(x) for x in cyc])), ZERO], "cycles %s" % (list(cyc),))
    for n in range(N + 1):
        for fix in [f for r in range(n + 1) for f in subsets(range(n), r)] + ([(1, 1), (1, 0, 1)] if n == 3 else []):
            want = [t for t in permutations(range(n)) if all(t[x] == x for x in fix)]
            for off in (0, 2, -3):
                distribution(c, I, p, "fixed points", "perm(n, fix)", "permF", lambda st: [P.c(n), put(st, vec([P.c(x + off) for x in fix])), P.c(off)],
                             [tuple(x + off for x in t) for t in want], "n = %d, fixed %s, offset %d" % (n, list(fix), off))
    for n, fix, off in ((3, (3,), 0), (3, (-1,), 0), (3, (0, 1), 1), (3, (4,), 1), (0, (0,), 0)):
        refused("permF", lambda st: [P.c(n), put(st, vec([P.c(x) for x in fix])), P.c(off)], "n = %d, fixed %s, offset %d" % (n, list(fix), off))
    for n in (-1, -4):
        refused("perm1", lambda st: [P.c(n)], "n = %d" % n)
        refused("permF", lambda st: [P.c(n), put(st, vec([])), ZERO], "n = %d" % n)


def subsets(xs, r):
    from itertools import combinations
    return combinations(xs, r)


def cyclelens(t):
    seen, out = set(), []
    for i in range(len(t)):
        n = 0
        while i not in seen:
            seen.add(i)
            i = t[i]
            n += 1
        if n:
            out.append(n)
    return sorted(out)


@prop("N07", 80)
def n07(c):
    """partitions, strings, bracket sequences"""
    c.rule("partition", "partition(n, k, min) yields exactly the sequences of k values of at least min that add up to n, for positive min with the same probability")
    c.rule("string", "string(n, alphabet) yields every string of n characters of the alphabet with the same probability (counting repeated characters)")
    c.rule("brackets", "bracketSequence(n, open, close) yields every proper bracket sequence of n pairs with the same probability")
    c.rule("refusal", "arguments no result exists for throw std::invalid_argument, nothing else does")
    p = rprog()
    I = setup(p)
    N = 8 if c.thorough else 6

    def compositions(n, k, m):
        if k == 0:
            return [()] if n == 0 else []
        return [(x,) + t for x in range(m, n - m * (k - 1) + 1) for t in compositions(n - x, k - 1, m)]

    def refused(fn, args, k, detail):
        for q in paths(c, I, p, fn, args):
            c.expect((q.kind == "throw" and q.val[1] == "std::invalid_argument") or unmod(q), "refusal", k, detail + ": %s" % q.kind)
    for n, k, m in product(range(1, N + 1), range(1, 5), (0, 1, 2, 3)):
        if m and k * m > n:
            refused("part3", lambda st: [P.c(n), P.c(k), P.c(m)], "partition", "n = %d, k = %d, min = %d" % (n, k, m))
            continue
        if m == 0 and n + k > 8:
            continue
        distribution(c, I, p, "partition", "partition", "part3", lambda st: [P.c(n), P.c(k), P.c(m)], compositions(n, k, m), "n = %d, k = %d, min = %d" % (n, k, m), uniform=m >= 0)
        if m == 1:
            distribution(c, I, p, "partition", "partition", "part2", lambda st: [P.c(n), P.c(k)], compositions(n, k, 1), "n = %d, k = %d" % (n, k))
    for n, k in ((0, 1), (-1, 1), (3, 0), (3, -2)):
        refused("part2", lambda st: [P.c(n), P.c(k)], "partition", "n = %d, k = %d" % (n, k))
    for al in ("a", "xy", "01z", "aab"):
        for n in range(4):
            want = Counter("".join(t) for t in product(al, repeat=n))
            tot = sum(want.values())
            got = Counter()
            for q in paths(c, I, p, "str2", lambda st: [P.c(n), Str(al)]):
                s = text(I, q)
                got[s] += mass(q) or 0
            c.expect(got == Counter({s: Fraction(w, tot) for s, w in want.items()}) or unmod(q), "string", "string", "length %d over %s: %s" % (n, al, dict(list(got.items())[:3])))
    got = Counter()
    for q in paths(c, I, p, "str1", lambda st: [P.c(1)]):
        got[text(I, q)] += mass(q) or 0
    c.expect(got == Counter({chr(97 + i): Fraction(1, 26) for i in range(26)}) or unmod(q), "string", "string", "default alphabet: %s" % (dict(list(got.items())[:3]),))
    refused("str2", lambda st: [P.c(2), Str("")], "string", "empty alphabet")
    refused("str1", lambda st: [P.c(-1)], "string", "negative length")
    B = 7 if c.thorough else 5
    I = interp(p)
    engine(I)
    sources(I, 0)
    for n in range(B + 1):
        for fn, a, b in (("brack1", "(", ")"), ("brack3", "<", ">")):
            want = ["".join(t) for t in product(a + b, repeat=2 * n) if proper(t, a)]
            got = Counter()
            for q in paths(c, I, p, fn, lambda st: [P.c(n)] + ([P.c(ord(a)), P.c(ord(b))] if fn == "brack3" else [])):
                m = mass(q)
                if m is None:
                    break
                got[text(I, q) if q.kind == "return" else q.kind] += m
            c.expect(got == Counter({s: Fraction(1, len(want)) for s in want}) or unmod(q), "brackets", "bracketSequence", "n = %d: %s" % (n, dict(list(got.items())[:3])))
    refused("brack1", lambda st: [P.c(-1)], "bracketSequence", "negative length")


def proper(t, a):
    d = 0
    for x in t:
        d += 1 if x == a else -1
        if d < 0:
            return False
    return d == 0


def text(I, q):
    o = outcome(I, q) if q.kind == "return" else None
    if isinstance(o, str):
        return o
    if isinstance(o, tuple) and all(isinstance(x, int) for x in o):
        return "".join(chr(x % 256) for x in o)
    return "?" + str(q.kind)


# ---------------------------------------------------------------- points in general position
def divide(a, b):
    """a / b if b divides a exactly (integer polynomials), else None"""
    xs = sorted({s for p in (a, b) for m in p.t for s, _ in m}, key=lambda s: s.uid)
    key = lambda m: (sum(e for _, e in m), [dict(m).get(s, 0) for s in xs])   # graded lexicographic order
    lead = lambda p: max(p.t.items(), key=lambda x: key(x[0]))
    q = ZERO
    for _ in range(200):
        if not a.t:
            return q
        (ma, ca), (mb, cb) = lead(a), lead(b)
        da = dict(ma)
        for s, e in mb:
            da[s] = da.get(s, 0) - e
            if da[s] < 0:
                return None
        if ca % cb:
            return None
        t = P({tuple(sorted(((s, e) for s, e in da.items() if e), key=lambda x: x[0].uid)): ca // cb})
        q = q + t
        a = a - t * b
    return None


def coeffs(x, s, m):
    """coefficients of the powers 0, 1, 2 of the symbol s in the polynomial x modulo m"""
    x = nf(x, m)
    out = [ZERO, ZERO, ZERO]
    for mon, c in x.t.items():
        d = dict(mon)
        e = d.pop(s, 0)
        if e > 2 or any(s in set(deep(y)) for y in d):
            return None
        out[e] = out[e] + P({tuple(z for z in mon if z[0] != s): c})
    return out


@prop("N08", 30)
def n08(c):
    """points without three on a line"""
    c.rule("range", "nonCollinearPoints(n, dim) yields n points with coordinates strictly between -dim and dim")
    c.rule("curve", "the points are the images of n different arguments modulo a prime p under coordinate polynomials of degree at most two, shifted by the same vector modulo p, "
                    "with a coefficient determinant that does not vanish modulo p: no two of them coincide and no three are on a line")
    c.rule("total", "nothing is thrown for 0 <= n < dim <= 0x1FFFFFFF, 2 <= dim; the prime is drawn from a range that contains one")
    c.rule("refusal", "n < 0, n >= dim and dim > 0x1FFFFFFF throw std::invalid_argument")
    p = rprog()
    dim = X(0, I64, "dim")
    prs = []
    for n in range(5 if c.thorough else 4):
        I = interp(p)
        I.houdini = True
        engine(I)
        sources(I, 0)

        def hprime(I, st, f, obj, args, e, fr):
            a = [I.rv(st, x) for x in args]
            lo, hi = a if len(a) == 2 else [ZERO] + a
            r = Sym("prime", (st.fresh(),), I64)
            st.ev = st.ev + [("prime", P.a(r), lo, hi, st.facts.copy())]
            st.facts._add(P.a(r) - lo, lo=0)
            st.facts._add(hi - P.a(r), lo=1)
            st.facts._add(P.a(r), lo=2)
            return [(st, P.a(r))]

        def hdistinct(I, st, f, obj, args, e, fr):
            a = [I.rv(st, x) for x in args]
            k = a[0].const()
            lo, hi = a[1:] if len(a) == 3 else [ZERO] + a[1:]
            if k is None:
                return None
            st.ev = st.ev + [("distinct", k, lo, hi, st.facts.copy())]
            if k > 0 and st.facts.query(c_le(P.c(k), hi - lo, "i")) is not True:
                st.ev = st.ev + [("short", k, lo, hi)]
            xs = []
            for i in range(k):
                x = P.a(Sym("arg", (st.fresh(),), I64))
                st.facts._add(x - lo, lo=0)
                st.facts._add(hi - x, lo=1)
                xs.append(x)
            return [(st, vec(xs))]
        I.hooks["Random::prime"] = hprime
        I.hooks["Random::distinct"] = hdistinct

        def hmultiple(I, st, f, obj, args, e, fr):
            st.ev = st.ev + [("repeats",)]
            r = hdistinct(I, st, f, obj, args, e, fr)
            return r
        I.hooks["Random::multiple"] = hmultiple

        def mk(st):
            st.facts._add(dim - P.c(n), lo=1)
            st.facts._add(dim, lo=2, hi=0x1FFFFFFF)
            return [P.c(n), dim]
        for q in paths(c, I, p, "noncol2", mk):
            k = "nonCollinearPoints"
            c.expect(q.kind == "return" or unmod(q), "total", k, "n = %d: %s %s" % (n, q.kind, q.val[1] if q.kind == "throw" else ""))
            if q.kind != "return":
                continue
            pr = [e for e in q.ev if e[0] == "prime"]
            ds = [e for e in q.ev if e[0] == "distinct"]
            if len(pr) != 1 or len(ds) > 1 or (n and not ds):
                c.undecided("curve", k, "%d primes and %d draws of distinct numbers" % (len(pr), len(ds)))
                continue
            m, lo, hi, F = pr[0][1:]
            # Bertrand: there is a prime in [x, 2x] for every x >= 1
            c.expect(F.entails(c_le(ONE, lo, "i")) and F.entails(c_lt(lo.scale(2), hi, "i")), "total", k, "[%s, %s) need not contain a prime" % (lo, hi))
            c.expect(not any(e[0] == "short" for e in q.ev), "total", k, "asks for more distinct numbers than there are")
            v = I.rv(q.st, q.val)
            pts = [I.elem(q.st, v, P.c(i)) for i in range(n)] if isinstance(v, Vec) and v.n.const() == n else None
            c.expect(pts is not None or unmod(q), "range", k, "not %d points: %s" % (n, str(v)[:60]))
            if not pts:
                continue
            c.expect(n < 2 or not any(e[0] == "repeats" for e in q.ev), "curve", k, "the arguments of the curve need not be different")
            co = []
            shift = None
            for i, z in enumerate(pts):
                xy = [z.get("first"), z.get("second")] if isinstance(z, Rec) else [None]
                if not all(isinstance(t, P) for t in xy):
                    c.undecided("curve", k, str(z)[:80])
                    break
                for t in xy:
                    c.expect((q.facts.entails(c_lt(-dim, t, "i")) and q.facts.entails(c_lt(t, dim, "i"))) or unmod(q), "range", k, "n = %d: coordinate %s may leave (-dim, dim)" % (n, str(t)[:100]))
                args = {s for t in xy for s in deep(t) if s.op == "arg"}
                if len(args) != 1:
                    c.expect(None if unmod(q) is None else False, "curve", k, "a point depends on %d of the distinct arguments" % len(args))
                    break
                s = args.pop()
                # the part of the coordinate outside of the reductions modulo p is the shift
                red = [P({mn: cf for mn, cf in t.t.items() if any(x.op == "mod" for x, _ in mn)}) for t in xy]
                sh = tuple(nf(t - r, m) for t, r in zip(xy, red))
                shift = shift or sh
                c.expect(sh == shift, "curve", k, "points are shifted by different vectors: (%s, %s) and (%s, %s)" % (sh + shift))
                cs = [coeffs(r, s, m) for r in red]
                if None in cs:
                    c.expect(None if unmod(q) is None else False, "curve", k, "coordinates are not polynomials of degree two modulo p: %s" % (str(red[0])[:120],))
                    break
                co.append((s, cs))
            else:
                c.expect(len({s for s, _ in co}) == n and all(cs == co[0][1] for _, cs in co), "curve", k, "points do not use n different arguments and the same polynomials")
                cx, cy = co[0][1]
                D = cx[2] * cy[1] - cx[1] * cy[2]
                c.expect(unit(q, D, m) or unmod(q), "curve", k, "coefficient determinant %s may vanish modulo p" % (str(D)[:120],))
    for cond, args in (("n < 0", lambda st: [P.c(-1), dim]), ("n >= dim", lambda st: [st.facts._add(dim, hi=3), P.c(3), dim][1:]), ("n >= dim", lambda st: [P.c(0), ZERO]), ("dim too large", lambda st: [P.c(3), P.c(0x20000000)])):
        for q in paths(c, I, p, "noncol2", args):
            c.expect((q.kind == "throw" and q.val[1] == "std::invalid_argument") or unmod(q), "refusal", "nonCollinearPoints", "%s: %s" % (cond, q.kind))


def unit(q, D, m):
    """D is known not to vanish modulo the prime m: it is a product of factors that do not"""
    fs = []
    for e in q.ev:
        if e[0] == "draw" and q.facts.entails(c_le(ONE, e[2], "i")) and q.facts.entails(c_lt(e[2], m, "i")):
            fs.append(e[2])
    for s in q.facts.at:
        for z in deep(s):
            if z.op == "mod" and len(z.args) == 2 and z.args[1] == m and q.facts.query(c_eq(P.a(z), ZERO, "i")) is False:
                fs.append(nf(z.args[0], m))
    for x in {s for mon in D.t for s, _ in mon}:
        y = P.a(x)
        if q.facts.entails(c_le(ONE, y, "i")) and q.facts.entails(c_lt(y, m, "i")):
            fs.append(y)
    for _ in range(6):
        k = D.const()
        if k is not None:
            return abs(k) == 1
        for f in fs:
            r = divide(D, f) if f.const() is None else None
            if r is not None:
                D = r
                break
        else:
            return False
    return False


# ---------------------------------------------------------------- determinism
FORBIDDEN = re.compile(r"^(std::)?(random_device|rand|srand|random|drand48|time|clock|clock_gettime|gettimeofday|getpid|getenv|rdtsc|__rdtsc|_rdrand64_step|shuffle|sample|random_shuffle|"
                       r"generate_canonical|(\w+_)?distribution(<.*)?|chrono::.*::now|this_thread::.*|thread::.*|hash<.*|ranges::(shuffle|sample).*)$")
TYPES = re.compile(r"\bstd::(random_device|\w+_distribution|unordered_\w+|hash|chrono::\w+|thread)\b")
# operators whose operands are evaluated in order
ORDERED = {"&&", "||", ",", "<<", ">>", "=", "+=", "-=", "*=", "/=", "%=", "^=", "|=", "&=", "<<=", ">>=", "->*", ".*"}


def nodes(x):
    """all nodes of a body; bodies of lambdas included"""
    stack = [x]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            if "k" in x:
                yield x
            stack.extend(x.values())
        elif isinstance(x, list):
            stack.extend(x)


def callees(p, f):
    for n in nodes(f.get("body")):
        if n.get("k") in ("call", "ctor") and n.get("f") in p.funcs:
            yield p.funcs[n["f"]]
        if n.get("k") == "lambda" and n.get("op") in p.funcs:
            yield p.funcs[n["op"]]


def closure(p, roots):
    seen, work = {}, list(roots)
    while work:
        f = work.pop()
        if f["id"] in seen:
            continue
        seen[f["id"]] = f
        work.extend(callees(p, f))
    return seen


def drawing(p, g):
    """ids of the functions that may draw a word of the engine g"""
    direct = {f["id"] for f in p.funcs.values() if any(n.get("k") == "ref" and n.get("d") == g["id"] for n in nodes(f.get("body")))}
    up = {}
    for f in p.funcs.values():
        for h in callees(p, f):
            up.setdefault(h["id"], set()).add(f["id"])
    seen, work = set(), list(direct)
    while work:
        i = work.pop()
        if i not in seen:
            seen.add(i)
            work.extend(up.get(i, ()))
    return seen


def determinism(c, p, roots, engine_q="Random::details::randomNumberGenerator"):
    g = p.glob(engine_q)
    draws = drawing(p, g)
    fs = closure(p, roots)

    def maydraw(n):
        for x in nodes(n):
            if x.get("k") in ("call", "ctor") and x.get("f") in draws:
                return True
            if x.get("k") == "ref" and x.get("d") == g["id"]:
                return True
        return False
    for f in fs.values():
        if not f.get("repo"):
            c.expect(not FORBIDDEN.match(norm(f["q"])), "entropy", f["q"], "is reachable from the random functions")
            continue
        c.count("functions")
        where = f["q"]
        objs = {}
        for n in nodes(f.get("body")):
            k = n.get("k")
            if k in ("call", "ctor"):
                h = p.funcs.get(n.get("f"))
                q = norm(h["q"]) if h else norm(n.get("fn", "?"))
                c.count("calls")
                c.expect(not FORBIDDEN.match(q), "entropy", where, "line %s uses %s" % (n.get("ln"), q))
                if n.get("obj") is not None and q.endswith("operator()"):
                    objs[id(strip(n["obj"]))] = n
            if k == "ref":
                gv = p.globals.get(n.get("d")) if n.get("dk") in ("gvar", "var") else None
                if gv is not None and gv["id"] != g["id"]:
                    c.expect(bool(gv.get("const") or gv.get("constexpr")), "state", where, "line %s uses the mutable variable %s" % (n.get("ln"), gv["q"]))
            t = n.get("t")
            if t is not None and k in ("decl", "ctor", "frange", "call", "tmp"):
                name = p.types[t].get("s", "") if isinstance(t, int) and t < len(p.types) else ""
                c.expect(not TYPES.search(name), "entropy", where, "line %s uses %s" % (n.get("ln"), name))
            # operands evaluated in unspecified order
            ops = None
            if k == "bin" and n.get("op") not in ORDERED:
                ops = [n["l"], n["r"]]
            elif k in ("call", "ctor") and not n.get("li"):
                op = (n.get("fn") or "").replace("operator", "") if n.get("oc") else None
                if op not in ORDERED:
                    ops = list(n.get("as") or [])
                    if n.get("oc") and op not in ("()", "[]") and n.get("obj") is not None:
                        ops.append(n["obj"])
            if ops and len(ops) > 1:
                m = [x for x in ops if maydraw(x)]
                c.count("expressions with several operands")
                c.expect(len(m) < 2, "order", where, "line %s draws in several operands whose order of evaluation is unspecified" % n.get("ln"))
        for n in nodes(f.get("body")):
            if n.get("k") == "ref" and n.get("d") == g["id"] and id(n) not in objs and f["q"] != "Random::seed":
                c.expect(False, "engine", where, "line %s uses the engine in another way than drawing a word" % n.get("ln"))


def strip(n):
    while isinstance(n, dict) and n.get("k") in ("load", "cast", "paren", "tmp", "e") and isinstance(n.get("e"), dict):
        n = n["e"]
    return n


@prop("N01", 300)
def n01(c):
    """determinism"""
    c.rule("entropy", "no random function reaches a source of entropy, a clock, or a standard facility whose result is left to the implementation")
    c.rule("state", "the random functions read no mutable variable but the engine")
    c.rule("engine", "the engine is only asked for its next word, and only seed() replaces it")
    c.rule("order", "no two operands evaluated in unspecified order both draw")
    c.rule("seed", "seed(s) replaces the state of the engine by one that depends on s alone; the engine starts with a constant seed")
    p = rprog()
    determinism(c, p, [f for f in p.funcs.values() if f["q"].startswith("Random::") and f.get("repo")])
    I = interp(p)
    g = p.glob("Random::details::randomNumberGenerator")
    cls = p.ty(g["t"]).get("r")

    def reset(I, st, f, obj, args, e, fr):
        v = [I.rv(st, a) for a in args]
        if f["n"] == "operator=":
            v = v[0].args[1:] if isinstance(v[0], Sym) and v[0].op == "ctor" else v
        st.ev = st.ev + [("reset", tuple(v), obj)]
        return [(st, obj)]
    for f in p.funcs.values():
        if f.get("cls") == cls and f["n"] in ("operator=", "seed"):
            I.hooks[norm(f["q"])] = reset
    engine(I)
    s = X(0, U64, "s")
    for q in paths(c, I, p, "seed1", lambda st: [s]):
        r = [e for e in q.ev if e[0] == "reset"]
        c.expect((q.kind == "return" and r and r[-1][1] == (s,)) or unmod(q), "seed", "Random::seed", "%s with resets %s" % (q.kind, [str(x[1])[:60] for x in r]))
        c.expect(not any(e[0] == "raw" for e in q.ev) or unmod(q), "seed", "Random::seed", "draws from the engine")
    init = g.get("init") or {}
    args = init.get("as", [])
    ok = all(isinstance(a, dict) and (a.get("cv") is not None or const_global(p, a)) for a in args)
    c.expect(bool(ok and args), "seed", "randomNumberGenerator", "is not initialised with a constant seed")


def const_global(p, n):
    n = strip(n)
    g = p.globals.get(n.get("d")) if isinstance(n, dict) and n.get("k") == "ref" else None
    return bool(g and (g.get("constexpr") or g.get("const")))


# ---------------------------------------------------------------- distributions
def trig(a):
    """argument of cos or sin is 2*pi times a uniform draw: that draw"""
    if a.op in ("cos", "sin") and isinstance(a.args[0], P) and len(a.args[0].t) == 1:
        (m, k), = a.args[0].t.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "rndreal" and abs(abs(float(k)) - 6.283185307179586) < 1e-14:
            return m[0][0]
    return None


def unary(x, op):
    """x == op(draw): the draw"""
    a = x.atom() if isinstance(x, P) else None
    y = a.args[0].atom() if a is not None and a.op == op and isinstance(a.args[0], P) else None
    return y if y is not None and y.op == "rndreal" else None


@prop("N04", 60)
def n04(c):
    """transformations of the uniform draws"""
    c.rule("normal", "normal is mean + stddev * sqrt(-2 ln u) * cos(2 pi v), or sin, for two independent uniform u and v (Box-Muller)")
    c.rule("exponential", "exponential is lower - ln(u)/lambda for a uniform u")
    c.rule("geometric", "geometric is lower + floor(ln(u)/ln(1-p)) for a uniform u")
    c.rule("extremes", "maximum, minimum and minmax of n < 5 have exactly the probabilities of the extreme of n independent uniform draws; "
                       "for larger n maximum is lower + floor(size * u^(1/n)), and minimum its mirror image")
    c.rule("prime", "every prime of the range belongs to the same number of values of the draw")
    p = rprog()
    I = interp(p)
    engine(I)
    sources(I)
    primality(I)
    l, u, n = X(0, I64, "l"), X(0, I64, "u"), X(0, I64, "n")
    F = lambda nm: X(0, F80, nm)
    fl, fu, fm, fs, fp = F("fl"), F("fu"), F("mean"), F("dev"), F("p")

    def rets(fn, a):
        for q in paths(c, I, p, fn, lambda st: list(a)):
            if q.kind == "return":
                yield q
    for fn, a in (("normal2", [fm, fs]), ("normal4", [fl, fu, fm, fs])):
        for q in rets(fn, a):
            d = q.val - fm
            ok1 = False
            if len(d.t) == 1:
                (m, k), = d.t.items()
                at = {s.op: (s, e) for s, e in m}
                t = [s for s, e in m if s.op in ("cos", "sin") and e == 1]
                r = at.get("sqrt", (None, 0))
                if abs(k) == 1 and len(m) == 3 and t and r[1] == 1 and dict(m).get(fs.atom()) == 1:
                    v, w = trig(t[0]), r[0].args[0]
                    lg = w.atoms()
                    lg = next(iter(lg)) if isinstance(w, P) and len(lg) == 1 else None
                    x = unary(P.a(lg), "log") if lg is not None else None
                    ok1 = v is not None and x is not None and v != x and w == P.a(lg).scale(-2)
            c.expect(ok1 or unmod(q), "normal", "normal", "is %s" % (str(q.val)[:160],))
    for fn, a, lo in (("exp1", [fm], ZERO), ("exp3", [fl, fu, fm], fl)):
        for q in rets(fn, a):
            d = q.val - lo
            a1 = (d.atom() or (-d).atom())
            ok1 = False
            if a1 is not None and a1.op == "fdiv":
                neg = d.atom() is None
                num = -a1.args[0] if neg else a1.args[0]
                ok1 = a1.args[1] == fm and unary(-num, "log") is not None
            c.expect(ok1 or unmod(q), "exponential", "exponential", "is %s" % (str(q.val)[:160],))
    for fn, a, lo in (("geo1", [fp], ZERO), ("geo3", [l, u, fp], l)):
        for q in rets(fn, a):
            x = (q.val - lo).atom()
            ok1 = False
            for op in ("llround", "lround", "f2i", "round"):
                if x is not None and x.op == op and isinstance(x.args[0], P):
                    x = x.args[0].atom()
            if x is not None and x.op == "floor":
                x = x.args[0].atom()
            if x is not None and x.op == "fdiv":
                den = x.args[1].atom()
                ok1 = unary(x.args[0], "log") is not None and den is not None and ((den.op == "log1p" and den.args[0] == -fp) or (den.op == "log" and den.args[0] == ONE - fp))
            c.expect(ok1 or unmod(q), "geometric", "geometric", "is %s" % (str(q.val)[:160],))
    for k in (5, 6, 13, 1000):
        for fn in ("max3", "min3", "minmax3") + (("-minmax3",) if True else ()):
            mn = fn in ("min3", "-minmax3")
            for q in rets(fn.strip("-"), [l, u, P.c(-k if fn[0] == "-" else k)]):
                v = q.val - l
                if mn:
                    v = u - ONE - l - v
                if v == u - ONE - l:
                    continue   # clamped to the largest value
                a1 = v.atom()
                ok1 = False
                if a1 is not None and a1.op in ("f2i", "floor", "llround"):
                    w = a1.args[0]
                    ex = [s for s in w.atoms() if s.op in ("exp2", "exp", "pow")]
                    if len(ex) == 1:
                        e = ex[0]
                        ok1 = w == (u - l) * P.a(e) and root(e, k)
                c.expect(ok1 or unmod(q), "extremes", "minimum" if mn else "maximum", "n = %d: %s" % (k, str(q.val)[:160]))
    for k in range(1, 5):
        for size in range(1, 5):
            for fn in ("max", "min", "minmax", "-minmax"):
                mn = fn in ("min", "-minmax")
                want = Counter((min if mn else max)(t) for t in product(range(size), repeat=k))
                want = {x: Fraction(w, size ** k) for x, w in want.items()}
                got = Counter()
                um = None
                for q in rets(fn.strip("-") + "3", [P.c(size - 6), P.c(size - 6 + size), P.c(-k if fn[0] == "-" else k)]):
                    o = (q.val - P.c(size - 6)).const()
                    m = mass(q)
                    um = um or (unmodelled(q.ev) or o is None or m is None)
                    got[o] += m or 0
                c.expect(dict(got) == want or (None if um else False), "extremes", "minimum" if mn else "maximum", "n = %d, %d values: %s" % (k, size, {x: str(y) for x, y in got.items()}))
    # exactly one value of the draw for every candidate
    J = interp(p)
    J.widen_exits = True
    engine(J)
    sources(J, 0)
    primality(J)
    for lo, hi in [(0, 3), (0, 4), (0, 30), (2, 12), (3, 20), (4, 6), (5, 31), (13, 14), (14, 18), (90, 131), (2, 3), (1, 3)]:
        cand = {}
        und = False
        for q in paths(c, J, p, "prime2", lambda st: [P.c(lo), P.c(hi)]):
            if q.kind != "return":
                continue
            ds = [(e[2], e[3], e[4]) for e in q.ev if e[0] == "draw"]
            ds += [(x[2], x[3], x[4]) for e in q.ev if e[0] == "loop" for t in e[2] for x in t if isinstance(x, tuple) and x and x[0] == "draw" and len(x) == 5]
            rs = {s for s in deep(q.val) if s.op == "rnd"}
            if q.val.const() is not None:
                rs = {d[0].atom() for d in ds[-1:]}
            r = rs.pop() if len(rs) == 1 else None
            b = [(x, y) for d, x, y in ds if d.atom() == r] if r is not None else []
            if not b or b[0][0].const() is None or b[0][1].const() is None:
                und = True
                continue
            for k in range(b[0][0].const(), b[0][1].const()):
                G = assuming(q.facts, c_eq(P.a(r), P.c(k), "i"))
                if G is None:
                    continue
                v = q.val.subst(lambda s: P.c(k) if s == r else None)
                if v.const() is None:
                    g = G.bounds(q.val)
                    v = P.c(int(g[0])) if g[0] == g[1] else v
                if v.const() is None:
                    und = True
                    continue
                cand.setdefault(v.const(), set()).add(k)
        primes = [x for x in range(max(lo, 2), hi) if all(x % d for d in range(2, x))]
        ns = {len(cand.get(x, ())) for x in primes}
        c.expect(None if und and not (ns - {0}) else len(ns) == 1 and 0 not in ns, "prime", "prime", "[%d, %d): values of the draw per prime %s" % (lo, hi, {x: len(cand.get(x, ())) for x in primes}))


def root(e, k):
    """e == u^(1/k) for a uniform u, written with exp2/log2, exp/log or pow"""
    if e.op == "pow":
        return isinstance(e.args[0], P) and e.args[0].atom() is not None and e.args[0].atom().op == "rndreal" and inv(e.args[1], k)
    w = e.args[0]
    lg = [s for s in w.atoms() if s.op == {"exp2": "log2", "exp": "log"}[e.op]]
    if len(lg) != 1 or unary(P.a(lg[0]), lg[0].op) is None or len(w.t) != 1:
        return False
    (m, f), = w.t.items()
    return m == ((lg[0], 1),) and abs(float(f) - 1 / k) < 1e-15


def inv(x, k):
    return isinstance(x, P) and x.const() is not None and abs(float(x.const()) - 1 / k) < 1e-15
