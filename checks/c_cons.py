"""The constraint log: ranges collected per name and the file they are written to."""
from fractions import Fraction
from itertools import product
from check import prop
from front import *
from interp import *
from front import load
from c_args import ROOTS
from c_svg import text, word, literals
import models
import poly

_p = {}
FMT = None


def prog():
    if not _p:
        _p[0] = load("cons.cpp", [], "c++17", roots=ROOTS)
    return _p[0]


class Log:
    def __init__(self, c, rule):
        self.c, self.rule = c, rule
        self.p = p = prog()
        self.I = I = Interp(p, widen=True)
        I.keep = 4096
        I.oob = "stop"
        self.loc = Loc(("s", "log"))
        self.n = 0

    def run(self, fn, args, st):
        self.c.count("runs")
        return self.I.run(self.p.find("drv::" + fn), None, args, st)

    def name(self, st, s, nm="name"):
        l = Loc(("s", nm, s if isinstance(s, str) else str(s)))
        st.store[l.root] = Str(s) if isinstance(s, str) else s
        return l

    def make(self, file=None):
        fs = [f for f in self.p.find("ConstraintsLogger::ConstraintsLogger", all=True) if (len(f["ps"]) == 0 if file is None else len(f["ps"]) == 1 and "ConstraintsLogger" not in str(self.p.ty(self.p.strip_ref(f["ps"][0]["t"])).get("q")))]
        if len(fs) != 1:
            raise AnalysisBroken("%d constructors of the logger" % len(fs))
        st = State()
        qs = self.I.run(fs[0], self.loc, [] if file is None else [file], st)
        if len(qs) != 1 or qs[0].kind != "return":
            raise AnalysisBroken("the constructor of the logger has no single path")
        return qs[0].st

    def log(self, states, fn, n, *args):
        """states after one more call, with the other ends"""
        out, bad = [], []
        for st in states:
            st = st.fork()
            st.ev = []
            av = []
            for a in args:
                if isinstance(a, tuple):      # something with a size
                    l = Loc(("s", "value", str(a[1])))
                    st.store[l.root] = a[1]
                    a = l
                av.append(a)
            try:
                qs = self.run(fn, [self.loc, self.name(st, n)] + av, st)
            except OutOfRange as e:
                self.c.bad(self.rule, "operator[]", "%s(%s) accesses an element that does not exist: %s" % (fn, n, e))
                continue
            for q in qs:
                (out if q.kind == "return" else bad).append(q)
        return [q.st for q in out], bad

    def written(self, st):
        s = st.fork()
        s.ev = []
        return self.run("write", [self.loc], s)


FILE = Sym("constraints file")


def lines(c, rule, fn, where, q, path):
    """the lines of the single file written, as lists of words; None if there is none"""
    op = [e for e in q.ev if e[0] == "open" and "ofstream" in e[1]]
    if not c.expect(len(op) == 1, rule, fn, "%s: the files %s are written" % (where, [str(e[2]) for e in op])):
        return None
    c.expect(op[0][2] == path or None, rule, fn, "%s: the file is %s" % (where, op[0][2]))
    sinks = {e[1] for e in q.ev if e[0] == "out" and isinstance(e[1], Sym) and e[1].op == "ofstream"}
    if not sinks:
        return []
    if len(sinks) > 1:
        c.undecided(rule, fn, "%s: %d streams" % (where, len(sinks)))
        return None
    out, cur, w = [], [], []
    for x in text(q, sinks.pop()):
        if x in (" ", "\n"):
            cur.append(w)
            w = []
            if x == "\n":
                out.append(cur)
                cur = []
        else:
            w.append(x)
    if cur or w:
        c.bad(rule, fn, "%s: the last line does not end" % where)
        return None
    return out


def num(w):
    if not w:
        return None
    if len(w) == 1 and isinstance(w[0], Sym) and w[0].op == "boolout":
        return w[0].args[0]
    v = word(w)
    return v if isinstance(v, P) else None


def line(c, rule, fn, where, l, name):
    """the six values of a line"""
    if len(l) != 8:
        c.bad(rule, fn, "%s: a line with %d words" % (where, len(l)))
        return None
    a, b = literals(l[0]), literals(l[1])
    if not c.expect(b == name and a.endswith(":" + name) and len(a) > len(name) + 1, rule, fn, "%s: the line of %s begins with %s %s" % (where, name, a, b)):
        return None
    return [num(w) for w in l[2:]]


def format_of(c, q, fn, where):
    """the number format at the moment the values are written"""
    prec, fix, words = 6, None, False
    for e in q.ev:
        if e[0] == "manip":
            if e[2] == "setprecision":
                prec = e[3].const() if isinstance(e[3], P) else None
            if e[2] in ("fixed", "scientific", "hexfloat", "defaultfloat"):
                fix = e[2]
            if e[2] in ("boolalpha", "noboolalpha"):
                words = e[2] == "boolalpha"
        if e[0] == "out":
            ops = {x.op for x in (e[2].args if isinstance(e[2], Sym) and e[2].op == "cat" else [e[2]]) if isinstance(x, Sym)}
            if "floatout" in ops:
                c.expect(None if prec is None else fix == "fixed" and prec >= 6, "format", fn, "%s: a number is written %s with %s digits" % (where, fix or "with the default notation", prec))
            if "boolout" in ops:
                c.expect(not words, "format", fn, "%s: a flag is written as a word" % where)


def real():
    E = Fraction(1, 10 ** 6)
    eq = lambda v, b: abs(v - b) <= E or (b != 0 and abs((v - b) / b) <= E)
    return eq


def ref(hist, isreal):
    """the line for a history of (lower, upper, value); upper exclusive for integers"""
    d = 0 if isreal else 1
    eq = real() if isreal else lambda v, b: v == b
    return [int(any(eq(v, l) for l, u, v in hist)), int(any(eq(v, u - d) for l, u, v in hist)),
            min(v for l, u, v in hist), max(v for l, u, v in hist), min(l for l, u, v in hist), max(u - d for l, u, v in hist)]


NAMES = ("hadMin", "hadMax", "min", "max", "lower", "upper")


def consts(c, M, fn, hist, isreal):
    st = M.make(FILE)
    sts = [st]
    mk = (lambda x: P.c(x))
    for l, u, v in hist:
        if fn in ("logS", "logV"):
            val = ("sized", Str("x" * v) if fn == "logS" else Vec(P.c(v), ("fill", ZERO), tuple((P.c(i), ZERO) for i in range(v))))
        else:
            val = mk(v)
        sts, bad = M.log(sts, fn, "n", mk(l), mk(u), val)
        for q in bad:
            c.bad("range", fn, "logging %s ends with %s" % (tuple(map(str, (l, u, v))), q.kind)) if q.kind == "throw" else c.undecided("range", fn, q.kind)
    if len(sts) != 1:
        return c.undecided("range", fn, "%d paths for constants" % len(sts))
    where = "log of " + " ".join("%s in [%s, %s%s" % (v, l, u, "]" if isreal else ")") for l, u, v in hist)
    c.count("histories")
    for q in M.written(sts[0]):
        ls = lines(c, "range", fn, where, q, FILE) if q.kind == "return" else c.undecided("range", fn, q.kind)
        if ls is None:
            continue
        if not c.expect(len(ls) == 1, "range", fn, "%s gives %d lines" % (where, len(ls))):
            continue
        vs = line(c, "range", fn, where, ls[0], "n")
        if vs is None:
            continue
        for n, g, w in zip(NAMES, vs, ref(hist, isreal)):
            k = g.const() if g is not None else None
            c.expect(None if k is None else k == w, "range", fn, "%s: %s is %s instead of %s" % (where, n, k, w))
        format_of(c, q, fn, where)


def symbolic(c, M, fn, k, ty, same):
    """k values with symbolic bounds: the extremes on every path"""
    isreal = ty is F80
    n = 3 * k if not same else k + 2
    X = lambda *a: P.a(Sym("real" if isreal else "x", a, ty))
    hist = [(X(0 if same else i, "l"), X(0 if same else i, "u"), X(i, "v")) for i in range(k)]
    st = M.make(FILE)
    for h in hist:
        for v in h:
            st.facts.nn |= frozenset(v.atoms()) if isreal else frozenset()
        if not isreal:
            st.facts.assume(c_le(h[0], h[1] - ONE, "i"), True)
            st.facts.assume(c_le(P.c(-(1 << 62)), h[0], "i"), True)
            st.facts.assume(c_le(h[1], P.c(1 << 62), "i"), True)
    sts = [st]
    for l, u, v in hist:
        sts, bad = M.log(sts, fn, "n", l, u, v)
        for q in bad:
            if q.kind == "throw":
                c.bad("extremes", fn, "a value is refused")
            else:
                c.undecided("extremes", fn, q.kind)
    one = ZERO if isreal else ONE
    where = "%d values" % k
    for st in sts:
        c.count("paths")
        for q in M.written(st):
            ls = lines(c, "extremes", fn, where, q, FILE) if q.kind == "return" else c.undecided("extremes", fn, q.kind)
            if ls is None:
                continue
            if not c.expect(len(ls) == 1, "extremes", fn, "%d lines" % len(ls)):
                continue
            vs = line(c, "extremes", fn, where, ls[0], "n")
            if vs is None:
                continue
            base = poly.rows(q.facts)
            if poly.feasible(base) is False:
                continue
            for i, cand, sg in ((2, [h[2] for h in hist], 1), (3, [h[2] for h in hist], -1), (4, [h[0] for h in hist], 1), (5, [h[1] - one for h in hist], -1)):
                g = vs[i]
                if g is None:
                    c.undecided("extremes", fn, NAMES[i])
                    continue
                le = lambda a, b: q.facts.entails(c_le(a, b, "f" if isreal else "i")) or poly.nonneg(q.facts, b - a, base)
                ok = any(g == w for w in cand) and all(le(g, w) if sg > 0 else le(w, g) for w in cand)
                c.expect(True if ok else False if not any(g == w for w in cand) and all(linear(w - g) for w in cand) else None, "extremes", fn, "%s is %s" % (NAMES[i], g))
            if isreal:
                continue
            for i, pairs in ((0, [(h[2], h[0]) for h in hist]), (1, [(h[2], h[1] - one) for h in hist])):
                g = vs[i]
                b = None if g is None else g.const()
                if b is None and g is not None:
                    b = q.facts.query(g)
                es = [q.facts.query(c_eq(a, w, "i")) for a, w in pairs]
                want = True if True in es else False if all(e is False for e in es) else None
                if b is None or want is None:
                    # the flag as a term: true exactly where one of the equations holds
                    t = g is not None and all(q.facts.query(x) is not None for x in ())
                    c.undecided("extremes", fn, NAMES[i]) if not t else c.ok("extremes", fn)
                else:
                    c.expect(bool(b) == want, "extremes", fn, "%s is %s" % (NAMES[i], b))


def linear(d):
    return d.const() is not None and d.const() != 0 or all(not k or (len(k) == 1 and k[0][1] == 1 and k[0][0].op in ("real", "x")) for k in d.t)


@prop("R08", 150)
def r08(c):
    c.rule("range", "the line of a constraint says whether a value ever met its lower and its upper bound, and gives the extreme values and the extreme bounds (upper bounds of integers inclusive)")
    c.rule("extremes", "the same for symbolic values and bounds, on every path")
    c.rule("format", "reals are written in fixed notation with at least six decimals, flags as digits")
    c.rule("type", "a constraint that has been used for one type refuses every other type and nothing else")
    M = Log(c, "range")
    F = Fraction
    one = [(0, 10, 0), (0, 10, 9), (0, 10, 5), (3, 4, 3), (-5, 5, -5), (-5, 5, 4), (-9, -2, -3)]
    H = [[x] for x in one] + [[a, b] for a, b in product(one, one) if a != b][::2 if not c.thorough else 1]
    H += [[(0, 10, 5), (0, 10, 7), (0, 10, 2)], [(0, 10, 9), (0, 20, 3), (5, 20, 5)], [(0, 10, 0), (-3, 7, 2), (-4, 2, 1)], [(0, 5, 1), (0, 3, 2), (0, 9, 4), (0, 9, 0)]]
    for h in H:
        consts(c, M, "logI", h, False)
    for h in ([(0, 10, 0)], [(0, 10, 9)], [(1, 5, 3), (1, 8, 7)], [(2, 5, 2), (0, 5, 4), (3, 5, 3)]):
        for fn in ("logZ", "logS", "logV"):
            consts(c, M, fn, h, False)
    e, z = F(1, 2 * 10 ** 6), F(1, 10 ** 5)
    rs = [(F(1), F(5), F(1)), (F(1), F(5), F(5)), (F(1), F(5), F(3)), (F(1), F(5), 1 + e), (F(1), F(5), 5 - e), (F(1), F(5), 1 + z), (F(1), F(5), 5 - z),
          (F(1000), F(100000), 1000 + F(1, 2000)), (F(1000), F(100000), 100000 - F(1, 20)), (F(-2), F(-1, 2), F(-2)), (F(-1, 1000), F(1, 1000), F(1, 1000) - e)]
    for h in [[x] for x in rs] + [[rs[2], x] for x in rs] + [[x, rs[2]] for x in rs] + [[rs[0], rs[4], rs[9]], [rs[7], rs[8]]]:
        consts(c, M, "logR", h, True)
    consts(c, M, "logD", [(F(1), F(5), F(5))], True)
    consts(c, M, "logD", [(F(1), F(5), F(1, 4)), (F(0) - 1, F(2), F(3, 2))], True)
    for k in (1, 2, 3) if c.thorough else (1, 2):
        symbolic(c, M, "logI", k, I64, k == 3)
    for k in (1, 2):
        symbolic(c, M, "logR", k, F80, False)
    # ---- types
    kinds = {"logI": "integer", "logZ": "integer", "logR": "real", "logD": "real", "logS": "string", "logV": "vector"}
    arg = {"logI": ONE, "logZ": ONE, "logR": ONE, "logD": ONE, "logS": ("s", Str("x")), "logV": ("s", Vec(ONE, ("fill", ZERO), ((ZERO, ZERO),)))}
    for a, b in product(kinds, kinds):
        sts, bad = M.log([M.make(FILE)], a, "n", ZERO, P.c(3), arg[a])
        if len(sts) != 1 or bad:
            c.undecided("type", a, "first use")
            continue
        sts, bad = M.log(sts, b, "n", ZERO, P.c(3), arg[b])
        thrown = [q for q in bad if q.kind == "throw"]
        if len(thrown) != len(bad):
            c.undecided("type", b, "ends with %s" % [q.kind for q in bad])
        elif kinds[a] == kinds[b]:
            c.expect(not thrown and len(sts) == 1, "type", b, "%s after %s is refused" % (b, a))
        else:
            c.expect(not sts and all(q.val[1] == "std::logic_error" for q in thrown), "type", b, "%s after %s is accepted" % (b, a))
        sts, bad = M.log(M.log([M.make(FILE)], a, "n", ZERO, P.c(3), arg[a])[0], b, "m", ZERO, P.c(3), arg[b])
        c.expect(len(sts) == 1 and not bad, "type", b, "%s after %s under another name is refused" % (b, a))


@prop("R09", 60)
def r09(c):
    c.rule("file", "the log is written to the file named exactly if one is named: by write and at the end of its life, also after it was moved")
    c.rule("lines", "there is one line for every name that logged a value, in the order in which the names were first used, and none for others")
    c.rule("name", "a name that is no token is refused with std::invalid_argument, every other name is accepted")
    M = Log(c, "lines")
    vals = [P.c(0), P.c(10), P.c(5)]
    mine = lambda q: [e for e in q.ev if e[0] == "open" and "ofstream" in e[1]]

    def one(fn, q, where, name="n"):
        if q.kind != "return":
            return c.undecided("file", fn, q.kind)
        # a log that was moved from has no file
        q.ev = [e for e in q.ev if not (e[0] == "open" and empty(e[2])) and not (e[0] in ("out", "manip") and isinstance(e[1], Sym) and e[1].op == "ofstream" and empty(e[1].args[0]))]
        ls = lines(c, "file", fn, where, q, FILE)
        if ls is None:
            return
        if c.expect(len(ls) == 1, "lines", fn, "%s: %d lines" % (where, len(ls))):
            vs = line(c, "lines", fn, where, ls[0], name)
            if vs is not None:
                g = [v.const() if v is not None else None for v in vs]
                c.expect(None if None in g else g == [0, 0, 5, 5, 0, 9], "lines", fn, "%s: values %s" % (where, g))
    for fn in ("scope", "moved", "built"):
        st = State()
        for q in M.run(fn, [FILE, M.name(st, "n")] + vals, st):
            one(fn, q, "a log that ends")
    st = State()
    for q in M.run("anon", [M.name(st, "n")] + vals, st):
        c.expect(not mine(q) if q.kind == "return" else None, "file", "anon", "a log without a file is written to %s" % [str(e[2]) for e in mine(q)])
    for q in M.run("make", [FILE], State()):
        ls = lines(c, "file", "make", "an unused log", q, FILE)
        c.expect(None if ls is None else not ls, "lines", "make", "an unused log has lines")
    for q in M.written(M.make()):
        c.expect(not mine(q) if q.kind == "return" else None, "file", "write", "a log without a file is written")
    # ---- several names, in order of first use
    I, R_, T = ("logI", P.c(0), P.c(10), P.c(5)), ("logR", P.c(1), P.c(2), P.c(Fraction(3, 2))), ("touch",)
    S = ("logS", P.c(0), P.c(10), ("s", Str("abc")))
    want = {"logI": [0, 0, 5, 5, 0, 9], "logR": [0, 0, Fraction(3, 2), Fraction(3, 2), 1, 2], "logS": [0, 0, 3, 3, 0, 9]}
    scripts = [
        [("b", I), ("a", R_)], [("a", I), ("b", R_)], [("c", I), ("a", S), ("b", R_)], [("b", T), ("a", I)], [("a", T), ("b", I), ("a", R_)],
        [("zeta", I), ("alpha", T), ("mid", S), ("alpha2", T), ("beta", R_)], [("b", I), ("a", I), ("b", I)], [("x", T)], [("x", T), ("y", T), ("x", R_)],
        [("b", S), ("d", I), ("a", T), ("c", R_), ("a", I), ("d", I)], [("aa", I), ("a", R_), ("aaa", S), ("A", I)],
    ]
    for sc in scripts:
        sts = [M.make(FILE)]
        order, used = [], {}
        for n, op in sc:
            if n not in order:
                order.append(n)
            if op[0] != "touch":
                used.setdefault(n, op[0])
            sts, bad = M.log(sts, op[0], n, *op[1:])
        where = " ".join("%s:%s" % (n, op[0]) for n, op in sc)
        if len(sts) != 1 or bad:
            c.bad("lines", "operator[]", "%s: the use is refused" % where) if any(q.kind == "throw" for q in bad) else c.undecided("lines", "operator[]", where)
            continue
        c.count("scripts")
        names = [n for n in order if n in used]
        st = sts[0]
        for turn in (1, 2):
            qs = M.written(st)
            if len(qs) != 1 or qs[0].kind != "return":
                c.undecided("lines", "write", where)
                break
            q = qs[0]
            ls = lines(c, "file", "write", where, q, FILE)
            if ls is None:
                break
            st = q.st
            got = [literals(l[1]) if len(l) > 1 else "" for l in ls]
            if not c.expect(got == names, "lines", "write", "%s: the lines are those of %s instead of %s" % (where, got, names)):
                break
            for n, l in zip(names, ls):
                vs = line(c, "lines", "write", where, l, n)
                if vs is not None:
                    g = [v.const() if v is not None else None for v in vs]
                    c.expect(None if None in g else g == want[used[n]], "lines", "write", "%s: %s has the values %s" % (where, n, g))
    for n, ok in (("", False), (" ", False), ("a b", False), ("a ", False), (" a", False), ("a\n", False), ("a\tb", None), ("n", True), ("sum_of_n", True), ("a-b.c", True), ("{x}", True)):
        if ok is None:
            continue
        for fn, args in (("touch", ()), ("logI", I[1:])):
            sts, bad = M.log([M.make(FILE)], fn, n, *args)
            if ok:
                c.expect(bool(sts) and not bad, "name", "operator[]", "the name %r is refused" % n)
            else:
                c.expect(not sts and bool(bad) and all(q.kind == "throw" and q.val[1] == "std::invalid_argument" for q in bad), "name", "operator[]", "the name %r is accepted" % n)


def empty(x):
    return isinstance(x, Str) and len(x.s) == 0
