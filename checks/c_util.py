"""Utility functions: characters, tolerance comparison, sequences, arithmetic, geometry, containers."""
from itertools import product, permutations
from check import prop
from front import *
from interp import *
from envs import *
import models
from c_args import ROOTS
from c_output import unmodelled

_p = {}


def prog():
    if not _p:
        _p[0] = load("util.cpp", [], "c++17", roots=ROOTS)
    return _p[0]


def interp(p):
    I = Interp(p, widen=True)
    I.keep = 4096
    I.sort_limit = 6
    I.split_sel = True
    return I


def X(i, ty=I64, nm="x"):
    return P.a(Sym(nm, (i,), ty))


def vec(xs):
    return Vec(P.c(len(xs)), ("fill", ZERO), tuple((P.c(i), x) for i, x in enumerate(xs)))


def put(st, v, nm="l"):
    l = Loc(("s", nm))
    st.store[l.root] = v
    return l


def paths(c, I, p, fn, mk):
    st = State()
    a = mk(st)
    for q in I.run(p.find("drv::" + fn), None, a, st):
        c.count("paths")
        for e in q.ev:
            if e[0] == "ub":
                c.rule("validity", "no sequence is resized while it is iterated over")
                c.bad("validity", fn, "%s (line %s)" % (e[1], e[2]))
        yield q


def assuming(F, *conds):
    """facts with the conditions added, None if contradictory"""
    G = F.copy()
    for b in conds:
        if isinstance(b, tuple):
            b, t = b
        else:
            t = True
        if isinstance(b, P) and b.const() is not None:
            if bool(b.const()) != t:
                return None
            continue
        if not G.assume(b, t):
            return None
    return G


def threeway(F, pairs, k="i"):
    """all consistent cases of a < b, a == b, a > b for the pairs: (facts, [-1/0/1])"""
    out = [(F, [])]
    for a, b in pairs:
        nxt = []
        for G, cs in out:
            for s, cond in ((-1, c_lt(a, b, k)), (0, c_eq(a, b, k)), (1, c_lt(b, a, k))):
                H = assuming(G, cond)
                if H is not None:
                    nxt.append((H, cs + [s]))
        out = nxt
    return out


def partitions(F, xs, k="i"):
    """all consistent equality patterns of the values: (facts, class representative of each)"""
    out = [(F, [])]
    for i in range(len(xs)):
        nxt = []
        for G, cls in out:
            for r in sorted(set(cls)) + [None]:
                conds = [(c_eq(xs[j], xs[i], k), cls[j] == r) for j in range(i)]
                H = assuming(G, *conds)
                if H is not None:
                    nxt.append((H, cls + [i if r is None else r]))
        out = nxt
    return out


def boolean(q):
    """(value, has reason, reason) of a boolean<T> result"""
    v = q.val
    if not isinstance(v, Rec):
        return None
    r = v.get("reason")
    return v.get("value"), r.has, r.val


def judge(c, rule, k, q, F, got, want, detail):
    """one obligation: boolean term got must be want under facts F"""
    b = F.query(got) if isinstance(got, P) else None
    if b is None:
        if q is not None and unmodelled(q.ev):
            c.undecided(rule, k, detail)
        else:
            c.bad(rule, k, detail + ": the result does not follow from the specified comparisons")
    else:
        c.expect(b is want or unmod(q), rule, k, detail + ": yields %s, specified %s" % (b, want))


def unmod(q):
    return None if q is not None and unmodelled(q.ev) else False


# ---------------------------------------------------------------- characters
LOW, UPP, DIG = "abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "0123456789"
CLS = {
    "lower": set(LOW), "upper": set(UPP), "letter": set(LOW + UPP), "digit": set(DIG), "vowel": set("aeiouAEIOU"),
}
CLS["consonant"] = CLS["letter"] - CLS["vowel"]
CONST = {
    "LETTER": UPP + LOW, "UPPER": UPP, "LOWER": LOW, "VOWEL": "AEIOUaeiou", "UPPER_VOWELS": "AEIOU", "LOWER_VOWELS": "aeiou",
    "CONSONANT": "".join(x for x in UPP if x not in "AEIOU") + "".join(x for x in LOW if x not in "aeiou"),
    "UPPER_CONSONANT": "".join(x for x in UPP if x not in "AEIOU"), "LOWER_CONSONANT": "".join(x for x in LOW if x not in "aeiou"),
    "ALPHA_NUMERIC": DIG + UPP + LOW, "UPPER_ALPHA_NUMERIC": DIG + UPP, "LOWER_ALPHA_NUMERIC": DIG + LOW, "DIGITS": DIG, "BRACKETS": "()[]{}<>",
}
MAPS = {"toLower": lambda x: x.lower(), "toUpper": lambda x: x.upper(), "toDefault": lambda x: x.lower()}


def asmap(fn, v):
    ch = chr(v % 256)
    return ord(fn(ch)) - 256 * (v < 0) if ch in CLS["letter"] else v


@prop("R14", 2000)
def r14(c):
    """character classes and alphabets"""
    c.rule("class", "isLower, isUpper, isLetter, isDigit, isVowel, isConsonant of a character hold exactly for the ASCII members of the class")
    c.rule("string", "the string variants hold exactly if every character is in the class, and otherwise name the first offending character")
    c.rule("case map", "toLower, toUpper and toDefaultCase change ASCII letters only, for characters and in place for whole strings")
    c.rule("token", "isToken holds exactly for non-empty strings without blank, tab, newline, carriage return, form feed and vertical tab")
    c.rule("alphabet", "the alphabet constants have exactly the documented characters in order")
    p = prog()
    I = interp(p)
    ch = X(0, CHAR, "c")
    for cl, members in CLS.items():
        fn = cl + "C"
        ps = list(paths(c, I, p, fn, lambda st: [ch]))
        for v in range(-128, 128):
            want = chr(v % 256) in members
            for q in ps:
                G = assuming(q.facts, c_eq(ch, P.c(v), "i"))
                if G is None:
                    continue
                if q.kind != "return":
                    c.bad("class", fn, "byte %d: %s" % (v, q.kind))
                    continue
                judge(c, "class", fn, q, G, q.val, want, "byte %d" % v)
    for m, fn in MAPS.items():
        ps = list(paths(c, I, p, m + "C", lambda st: [ch]))
        for v in range(-128, 128):
            for q in ps:
                G = assuming(q.facts, c_eq(ch, P.c(v), "i"))
                if G is None or q.kind != "return":
                    continue
                e = G.query(c_eq(q.val, P.c(asmap(fn, v)), "i"))
                c.expect(e if e is not None else (None if unmodelled(q.ev) else False), "case map", m, "byte %d becomes %s" % (v, q.val))
        # in place, per character: strings of one and two characters
        for n in (0, 1, 2):
            cs = [X(i, CHAR, "c") for i in range(n)]
            for q in paths(c, I, p, m + "S", lambda st: [put(st, vec(cs), "str")]):
                if q.kind != "return":
                    c.bad("case map", m + "(string)", q.kind)
                    continue
                v = I.read(q.st, Loc(("s", "str")))
                if models.sizeof(I, q.st, v).const() != n:
                    c.bad("case map", m + "(string)", "length changes")
                    continue
                for i in range(n):
                    el = I.elem(q.st, v, P.c(i))
                    for x in (64, 65, 77, 90, 91, 96, 97, 109, 122, 123, 0, -1, -61, 127, -128, 48):
                        G = assuming(q.facts, c_eq(cs[i], P.c(x), "i"))
                        if G is None:
                            continue
                        e = G.query(c_eq(el, P.c(asmap(fn, x)), "i")) if isinstance(el, P) else None
                        c.expect(e if e is not None else (None if unmodelled(q.ev) else False), "case map", m + "(string)", "byte %d at %d becomes %s" % (x, i, el))
    strings(c, I, p)
    WS = set(" \n\r\t\f\v")
    N = 3 if c.thorough else 2
    for n in range(N + 1):
        cs = [X(i, CHAR, "c") for i in range(n)]
        for q in paths(c, I, p, "token", lambda st: [vecstr(I, st, cs)]):
            if q.kind != "return":
                c.bad("token", "details::isToken", q.kind)
                continue
            reps = [32, 10, 13, 9, 12, 11, 8, 14, 0, 65, -96, 127, 31, 33, -123] if n < 3 else [32, 10, 13, 9, 12, 11, 65, -96]
            for vs in product(reps, repeat=n):
                G = assuming(q.facts, *[c_eq(a, P.c(b), "i") for a, b in zip(cs, vs)])
                if G is not None:
                    judge(c, "token", "details::isToken", q, G, q.val, n > 0 and not any(chr(v % 256) in WS for v in vs), "string %s" % (vs,))
    for nm, want in CONST.items():
        for q in paths(c, I, p, "c" + nm, lambda st: []):
            v = models.pval(I, q.st, q.val) if q.kind == "return" else None
            c.expect(v == Str(want), "alphabet", nm, "is %s" % (v,))


def vecstr(I, st, cs):
    """a string view of symbolic characters"""
    l = put(st, vec(cs), "chars")
    return st.store[l.root]


def strings(c, I, p):
    N = 3
    for cl, members in CLS.items():
        fn = cl + "S"
        inside = next(iter(sorted(members)))
        edge = sorted({ord(x) + d for x in ("a", "z", "A", "Z", "0", "9") for d in (-1, 0, 1)} | {ord("e"), ord("U"), -61, 0})
        for n in range(N + 1):
            cs = [X(i, CHAR, "c") for i in range(n)]
            for q in paths(c, I, p, fn, lambda st: [vecstr(I, st, cs)]):
                if q.kind != "return":
                    c.bad("string", fn, q.kind)
                    continue
                val, has, why = boolean(q)
                reps = edge if n == 1 else [ord("a"), ord("B"), ord("e"), ord("U"), ord("5"), 91] if n == 2 else [ord("b"), ord("E"), ord("7")]
                for vs in product(reps, repeat=n):
                    G = assuming(q.facts, *[c_eq(a, P.c(b), "i") for a, b in zip(cs, vs)])
                    if G is None:
                        continue
                    off = [v for v in vs if chr(v % 256) not in members]
                    judge(c, "string", fn, q, G, val, not off, "string %s" % (vs,))
                    if off:
                        okr = G.query(has) is True and isinstance(why, P) and G.query(c_eq(why, P.c(off[0]), "i")) is True
                        c.expect(okr or unmod(q), "string", fn, "string %s: reason %s, specified %d" % (vs, why, off[0]))
                    else:
                        c.expect(G.query(has) is False or unmod(q), "string", fn, "string %s: a reason although all characters match" % (vs,))


# ---------------------------------------------------------------- tolerance comparison
@prop("R12", 100)
def r12(c):
    """tolerance comparison of reals"""
    c.rule("finite", "two finite values are equal exactly if their absolute difference is within the absolute tolerance or the difference relative to the expected value is within the relative tolerance (bounds included)")
    c.rule("special", "NaN equals exactly NaN, an infinity equals exactly the infinity of the same sign, and neither equals a finite value")
    c.rule("tolerance", "a negative or NaN tolerance is refused and nothing else is")
    c.rule("order", "floatLess (floatGreater) holds exactly if given <= (>=) expected or they are equal within the tolerances")
    p = prog()
    I = interp(p)
    g, e, a, r = [X(i, F80, n) for i, n in enumerate(("given", "expected", "absTol", "relTol"))]
    un = lambda nm, *xs: P.a(Sym(nm, xs, None))
    ref = reference(I, p, g, e)
    for fn in ("feq", "fle", "fge"):
        k = {"feq": "floatEqual", "fle": "floatLess", "fge": "floatGreater"}[fn]
        ps = list(paths(c, I, p, fn, lambda st: [g, e, a, r]))
        for q in ps:
            cls = {}
            tolok = []
            for t in (a, r):
                tolok.append(q.facts.query(c_le(ZERO, t, "f")))
            if q.kind == "throw":
                c.expect(q.val[1] == "std::domain_error" and (False in tolok), "tolerance", k, "valid tolerances are refused")
                continue
            if q.kind != "return":
                c.undecided("finite", k, str(q.kind))
                continue
            dec = q.facts.query(c_le(g, e, "f") if fn == "fle" else c_le(e, g, "f")) if fn != "feq" else None
            if not (fn != "feq" and dec is True):
                c.expect(None not in tolok and False not in tolok, "tolerance", k, "a negative tolerance is accepted")
                if None in tolok or False in tolok:
                    continue
            for G, cg, ce in classes(q.facts, ref, g, e):
                if cg == ce == "fin":
                    for H, (s1, s2) in tolerances(G, ref, g, e, a, r):
                        want = s1 <= 0 or s2 <= 0
                        finish(c, "finite", k, fn, q, H, g, e, want, "|given-expected| %s absTol, relative difference %s relTol" % ("<=>"[s1 + 1], "<=>"[s2 + 1]))
                elif cg == ce == "inf":
                    sg, se = ref["signbit"]
                    for x, y in product((0, 1), repeat=2):
                        H = assuming(G, *sgn(sg, x), *sgn(se, y), (c_eq(sg, se, "i"), x == y))
                        if H is not None:
                            finish(c, "special", k, fn, q, H, g, e, x == y, "infinities with sign bits %d, %d" % (x, y), (cg, ce, x, y))
                else:
                    finish(c, "special", k, fn, q, G, g, e, cg == ce == "nan", "%s compared with %s" % (cg, ce), (cg, ce))


def sgn(t, v):
    return [(t, bool(v)), c_eq(t, P.c(v), "i")] if isinstance(t, P) and t.atom() is not None and t.atom().ty is not BOOL else [(t, bool(v))]


def reference(I, p, g, e):
    """the analyser's terms for the classification functions"""
    st = State()
    ref = {}
    for nm in ("isfinite", "isnan", "isinf", "signbit"):
        ref[nm] = [P.a(Sym(nm, (x,), BOOL)) for x in (g, e)]
    return ref


def classes(F, ref, g, e):
    for cg, ce in product(("fin", "inf", "nan"), repeat=2):
        conds = []
        for i, cl in enumerate((cg, ce)):
            for nm, w in (("isfinite", "fin"), ("isinf", "inf"), ("isnan", "nan")):
                for b in variants(F, nm, (g, e)[i]):
                    conds.append((b, cl == w))
        G = assuming(F, *conds)
        if G is not None:
            yield G, cg, ce


def variants(F, nm, x):
    """all atoms of the facts that classify x, plus the canonical one"""
    out = [P.a(Sym(nm, (x,), BOOL))]
    for a in F.at:
        if a.op == nm and a.args and a.args[0] == x and P.a(a) not in out:
            out.append(P.a(a))
    return out


def tolerances(F, ref, g, e, a, r):
    d = fabs(g - e)
    rel = [fabs(P.a(Sym("fdiv", (g - e, e), F80)))]
    for G, s in threeway(F, [(d, a), (rel[0], r)], "f"):
        yield G, s


def fabs(x):
    return P.a(Sym("abs", (x,), F80))


def finish(c, rule, k, fn, q, F, g, e, want, detail, cl=None):
    if fn == "feq":
        judge(c, rule, k, q, F, q.val, want, detail)
        return
    a, b = (g, e) if fn == "fle" else (e, g)
    if cl is not None and "nan" in cl[:2]:
        cases = [(False, assuming(F, (c_le(a, b, "f"), False)))]      # a comparison with NaN is false
    elif cl is not None and len(cl) == 4:
        t = cl[2] == cl[3] or (cl[2] == 1 if fn == "fle" else cl[3] == 1)
        cases = [(t, assuming(F, (c_le(a, b, "f"), t)))]
    else:
        cases = [(t, assuming(F, (c_le(a, b, "f"), t))) for t in (True, False)]
    for t, G in cases:
        if G is not None:
            judge(c, "order", k, q, G, q.val, want or t, detail + ", given %s expected: %s" % ("<=" if fn == "fle" else ">=", t))


# ---------------------------------------------------------------- sequences
ORDER = {"inc": {-1}, "nondec": {-1, 0}, "dec": {1}, "noninc": {0, 1}}


@prop("R24", 300)
def r24(c):
    """sequence predicates"""
    c.rule("adjacent", "anyAdjacent (noneAdjacent, allAdjacent) holds exactly if the predicate holds for some (no, every) neighbouring pair in order, and names the position of the first pair that decides")
    c.rule("order", "areIncreasing, areNonDecreasing, areDecreasing, areNonIncreasing hold exactly if every neighbouring pair is so ordered, and name the first that is not")
    c.rule("distinct", "areDistinct holds exactly if all elements differ pairwise and otherwise names a repeated element")
    c.rule("permutation", "isPerm holds exactly if the elements are offset..offset+n-1 in some order (two ranges: the same elements equally often) and otherwise names an element that is no part of it")
    p = prog()
    I = interp(p)

    def h_pred(I, st, f, obj, args, e, fr):
        return [(st, P.a(Sym("pred", tuple(I.rv(st, x) for x in args), BOOL)))]
    I.hooks["drv::Pred::operator()"] = h_pred
    N = 5 if c.thorough else 4
    PR = Rec(p.rec("drv::Pred")["id"], {})
    for n in range(N + 1):
        xs = [X(i) for i in range(n)]
        for base, mode in (("anyAdj", "any"), ("noneAdj", "none"), ("allAdj", "all")):
            for fn in (base, base + "I"):
                for q in paths(c, I, p, fn, lambda st: [put(st, vec(xs)), PR]):
                    if q.kind != "return":
                        c.bad("adjacent", fn, "%d elements: %s" % (n, q.kind))
                        continue
                    val, has, why = boolean(q)
                    for bits in product((False, True), repeat=max(0, n - 1)):
                        G = assuming(q.facts, *[(P.a(Sym("pred", (xs[i], xs[i + 1]), BOOL)), b) for i, b in enumerate(bits)])
                        if G is None:
                            continue
                        stop = mode != "all"
                        first = next((i + 1 for i, b in enumerate(bits) if b == stop), None)
                        want = (first is not None) if mode == "any" else first is None
                        judge(c, "adjacent", fn, q, G, val, want, "pairs %s" % (bits,))
                        position(c, "adjacent", fn, q, G, has, why, first, "pairs %s" % (bits,))
        for base, allowed in ORDER.items():
            for fn in (base, base + "I"):
                for q in paths(c, I, p, fn, lambda st: [put(st, vec(xs))]):
                    if q.kind != "return":
                        c.bad("order", fn, "%d elements: %s" % (n, q.kind))
                        continue
                    val, has, why = boolean(q)
                    for G, cs in threeway(q.facts, [(xs[i], xs[i + 1]) for i in range(n - 1)]):
                        first = next((i + 1 for i, s in enumerate(cs) if s not in allowed), None)
                        judge(c, "order", fn, q, G, val, first is None, "neighbours %s" % (cs,))
                        position(c, "order", fn, q, G, has, why, first, "neighbours %s" % (cs,))
    M = 4 if c.thorough else 3
    for n in range(M + 1):
        xs = [X(i) for i in range(n)]
        for q in paths(c, I, p, "distinct", lambda st: [put(st, vec(xs))]):
            if q.kind != "return":
                c.bad("distinct", "areDistinct", str(q.kind))
                continue
            val, has, why = boolean(q)
            for G, cls in partitions(q.facts, xs):
                dup = [i for i in range(n) if cls.count(cls[i]) > 1]
                judge(c, "distinct", "areDistinct", q, G, val, not dup, "classes %s" % (cls,))
                if dup:
                    okr = G.query(has) is True and isinstance(why, P) and any(G.query(c_eq(why, xs[i], "i")) is True for i in dup)
                    c.expect(okr or unmod(q), "distinct", "areDistinct", "classes %s: names %s" % (cls, why))
                else:
                    c.expect(G.query(has) is False or unmod(q), "distinct", "areDistinct", "names an element although all differ")
    off = X(0, I64, "offset")
    L = 1 << 62
    for n in range(M + 1):
        xs = [X(i) for i in range(n)]

        def bounded(st):
            for v in xs + [off]:
                st.facts._add(v, lo=-L, hi=L)
            return [put(st, vec(xs)), off]
        for fn, o in (("perm", off), ("perm0", ZERO)):
            for q in paths(c, I, p, fn, (lambda st: bounded(st)) if fn == "perm" else (lambda st: bounded(st)[:1])):
                permutation(c, fn, q, xs, o, n)
    for n, m in ((0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (2, 1), (3, 2)) + (((3, 3),) if c.thorough else ()):
        xs, ys = [X(i) for i in range(n)], [X(i, I64, "y") for i in range(m)]
        for q in paths(c, I, p, "perm2", lambda st: [put(st, vec(xs)), put(st, vec(ys), "m")]):
            if q.kind != "return":
                c.bad("permutation", "isPerm(a, b)", str(q.kind))
                continue
            val, has, why = boolean(q)
            for G, cls in partitions(q.facts, xs + ys):
                want = n == m and all(cls[:n].count(x) == cls[n:].count(x) for x in cls)
                judge(c, "permutation", "isPerm(a, b)", q, G, val, want, "classes %s of %d and %d elements" % (cls, n, m))


def position(c, rule, fn, q, G, has, why, first, detail):
    if first is None:
        c.expect(G.query(has) is False or unmod(q), rule, fn, detail + ": names a position although there is none")
    else:
        okr = G.query(has) is True and isinstance(why, P) and G.query(c_eq(why, P.c(first), "i")) is True
        c.expect(okr or unmod(q), rule, fn, detail + ": names position %s, specified %d" % (why, first))


def permutation(c, fn, q, xs, o, n):
    k = "isPerm(range%s)" % (", offset" if fn == "perm" else "")
    if q.kind != "return":
        c.bad("permutation", k, str(q.kind))
        return
    val, has, why = boolean(q)
    v = q.facts.query(val)
    if v is None:
        c.undecided("permutation", k, "result open on a path")
        return
    if v:
        for i in range(n):
            for cond, t in ((c_lt(xs[i], o, "i"), "below the offset"), (c_le(o + P.c(n), xs[i], "i"), "above the last value")):
                c.expect(assuming(q.facts, cond) is None or unmod(q), "permutation", k, "accepts an element " + t)
            for j in range(i):
                c.expect(assuming(q.facts, c_eq(xs[i], xs[j], "i")) is None or unmod(q), "permutation", k, "accepts a repeated element")
        c.expect(q.facts.query(has) is False or unmod(q), "permutation", k, "names an element although it holds")
    else:
        for pi in permutations(range(n)):
            G = assuming(q.facts, *[c_eq(x, o + P.c(j), "i") for x, j in zip(xs, pi)])
            c.expect(G is None or unmod(q), "permutation", k, "rejects the order %s" % (pi,))
        okr = q.facts.query(has) is True and why in xs
        c.expect(okr or unmod(q), "permutation", k, "names %s" % (why,))
        if okr:
            i = xs.index(why)
            # the element named is out of range or occurs before
            G = assuming(q.facts, c_le(o, why, "i"), c_lt(why, o + P.c(n), "i"), *[(c_eq(why, x, "i"), False) for x in xs if x != why])
            c.expect(G is None or unmod(q), "permutation", k, "names an element that is in range and unique")
