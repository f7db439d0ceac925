"""Standard algorithms over ranges of constant length, modelled exactly by branching on the comparisons they make."""
from dom import *
from models import model, seq, sizeof, pval, MODELS
import models

MAXN = 64
models_reverse, models_rotate, models_copy = (MODELS["std::" + n] for n in ("reverse", "rotate", "copy"))


def span(I, st, a, b):
    """positions between two iterators, None if their distance is not constant"""
    x, y = I.rv(st, a), I.rv(st, b)
    if isinstance(x, Loc) and isinstance(y, (Iter, Loc)):
        x = I.padd(st, x, ZERO)
    if isinstance(y, Loc) and isinstance(x, Iter):
        y = I.padd(st, y, ZERO)
    if not (isinstance(x, Iter) and isinstance(y, Iter)) or x.loc != y.loc or x.rev != y.rev:
        return None
    n = (y.idx - x.idx).const()
    n = -n if n is not None and x.rev else n
    if n is None or not 0 <= n <= MAXN:
        return None
    return [I.step(st, x, i, None) if i else x for i in range(n)] + [y]


def val(I, st, it):
    return I.rv(st, I.ptrloc(st, it))


def test(I, st, fn, args, e, fr):
    """[(state, bool | None)] of a predicate on locations"""
    out = []
    for s, r in I.invoke(st, fn, args, {"t": -1, "ln": e.get("ln")}, fr):
        if s.ab:
            out.append((s, None))
        else:
            out += I.branch(s, I.tobool(s, I.rv(s, r)))
    return out


def eq(I, st, x, y):
    return I.branch(st, I.tobool(st, I.same(st, x, y)))


def chain(I, st, steps, tests, hit, miss):
    """runs the tests in order: hit(state, step) at the first that holds, else miss(state)"""
    out, cur = [], [st]
    for x in steps:
        nxt = []
        for s in cur:
            for s2, b in tests(s, x):
                if b is None:
                    out.append((s2, None))
                elif b:
                    out.append((s2, hit(s2, x)))
                else:
                    nxt.append(s2)
        cur = nxt
    return out + [(s, miss(s)) for s in cur]


@model("std::find", "std::find_if", "std::find_if_not")
def m_find(I, st, f, obj, a, e, fr):
    ps = span(I, st, a[0], a[1])
    if ps is None or len(a) != 3:
        return None
    if f["n"] == "find":
        t = lambda s, it: eq(I, s, val(I, s, it), I.rv(s, a[2]))
    else:
        want = f["n"] == "find_if"
        t = lambda s, it: [(s2, None if b is None else b == want) for s2, b in test(I, s, a[2], [I.ptrloc(s, it)], e, fr)]
    return chain(I, st, ps[:-1], t, lambda s, it: it, lambda s: ps[-1])


@model("std::count", "std::count_if")
def m_count(I, st, f, obj, a, e, fr):
    ps = span(I, st, a[0], a[1])
    if ps is None or len(a) != 3:
        return None
    cur, out = [(st, 0)], []
    for it in ps[:-1]:
        nxt = []
        for s, k in cur:
            for s2, b in (eq(I, s, val(I, s, it), I.rv(s, a[2])) if f["n"] == "count" else test(I, s, a[2], [I.ptrloc(s, it)], e, fr)):
                if b is None:
                    out.append((s2, None))
                else:
                    nxt.append((s2, k + b))
        cur = nxt
    return out + [(s, P.c(k)) for s, k in cur]


def binary(I, st, a, i, default, e, fr):
    """test(state, it1, it2) of an optional binary predicate"""
    if len(a) > i:
        return lambda s, x, y: test(I, s, a[i], [I.ptrloc(s, x), I.ptrloc(s, y)], e, fr)
    if default == "==":
        return lambda s, x, y: eq(I, s, val(I, s, x), val(I, s, y))
    return lambda s, x, y: I.branch(s, I.tobool(s, I.compare(s, "<", val(I, s, x), val(I, s, y), False)))


@model("std::adjacent_find", "std::is_sorted", "std::is_sorted_until")
def m_adjacent(I, st, f, obj, a, e, fr):
    ps = span(I, st, a[0], a[1])
    if ps is None:
        return None
    adj = f["n"] == "adjacent_find"
    t = binary(I, st, a, 2, "==" if adj else "<", e, fr)
    pairs = list(zip(ps[:-1], ps[1:-1]))
    tt = lambda s, p: t(s, *(p if adj else p[::-1]))
    if f["n"] == "is_sorted":
        return chain(I, st, pairs, tt, lambda s, p: ZERO, lambda s: ONE)
    return chain(I, st, pairs, tt, lambda s, p: p[0 if adj else 1], lambda s: ps[-1])


def second(I, st, a, n):
    """second range of mismatch/equal: (positions, has an end, index of the predicate)"""
    if len(a) >= 4 and not isinstance(I.rv(st, a[3]), (Clo, Fn)) and isinstance(I.rv(st, a[3]), Iter):
        return span(I, st, a[2], a[3]), True, 4
    x = I.rv(st, a[2])
    if not isinstance(x, Iter):
        return None, False, 3
    return [I.step(st, x, i, None) if i else x for i in range(n + 1)], False, 3


@model("std::mismatch", "std::equal")
def m_mismatch(I, st, f, obj, a, e, fr):
    xs = span(I, st, a[0], a[1])
    if xs is None:
        return None
    ys, end, pi = second(I, st, a, len(xs) - 1)
    if ys is None:
        return None
    n = len(xs) - 1
    m = min(n, len(ys) - 1) if end else n
    if f["n"] == "equal" and end and len(ys) - 1 != n:
        return [(st, ZERO)]
    t = binary(I, st, a, pi, "==", e, fr)
    neg = lambda s, i: [(s2, None if b is None else not b) for s2, b in t(s, xs[i], ys[i])]
    if f["n"] == "equal":
        return chain(I, st, range(m), neg, lambda s, i: ZERO, lambda s: ONE)
    pr = lambda i: Rec("pair", {"first": xs[i], "second": ys[i]})
    return chain(I, st, range(m), neg, lambda s, i: pr(i), lambda s: pr(m))


@model("std::min_element", "std::max_element", "std::minmax_element")
def m_extreme(I, st, f, obj, a, e, fr):
    ps = span(I, st, a[0], a[1])
    if ps is None:
        return None
    if len(ps) == 1:
        return [(st, ps[0] if f["n"] != "minmax_element" else Rec("pair", {"first": ps[0], "second": ps[0]}))]
    less = binary(I, st, a, 2, "<", e, fr)

    def run(s0, mode):
        cur, out = [(s0, ps[0])], []
        for it in ps[1:-1]:
            nxt = []
            for s, best in cur:
                x, y = {"min": (it, best), "max": (best, it), "maxl": (it, best)}[mode]
                for s2, b in less(s, x, y):
                    if b is None:
                        out.append((s2, None))
                    else:
                        take = b if mode != "maxl" else not b
                        nxt.append((s2, it if take else best))
            cur = nxt
        return out + cur
    if f["n"] == "min_element":
        return run(st, "min")
    if f["n"] == "max_element":
        return run(st, "max")
    out = []
    for s, lo in run(st, "min"):
        if s.ab:
            out.append((s, None))
            continue
        for s2, hi in run(s, "maxl"):
            out.append((s2, None if s2.ab else Rec("pair", {"first": lo, "second": hi})))
    return out


@model("std::lexicographical_compare")
def m_lex(I, st, f, obj, a, e, fr):
    xs, ys = span(I, st, a[0], a[1]), span(I, st, a[2], a[3])
    if xs is None or ys is None:
        return None
    less = binary(I, st, a, 4, "<", e, fr)
    n, m = len(xs) - 1, len(ys) - 1
    cur, out = [st], []
    for i in range(min(n, m)):
        nxt = []
        for s in cur:
            for s2, b in less(s, xs[i], ys[i]):
                if b is None or b:
                    out.append((s2, None if b is None else ONE))
                    continue
                for s3, c in less(s2, ys[i], xs[i]):
                    if c is None or c:
                        out.append((s3, None if c is None else ZERO))
                    else:
                        nxt.append(s3)
        cur = nxt
    return out + [(s, P.c(int(n < m))) for s in cur]


@model("std::unique")
def m_unique(I, st, f, obj, a, e, fr):
    ps = span(I, st, a[0], a[1])
    if ps is None:
        return None
    if len(ps) == 1:
        return [(st, ps[0])]
    t = binary(I, st, a, 2, "==", e, fr)
    cur, out = [(st, [0])], []
    for i in range(1, len(ps) - 1):
        nxt = []
        for s, keep in cur:
            for s2, b in t(s, ps[keep[-1]], ps[i]):
                if b is None:
                    out.append((s2, None))
                else:
                    nxt.append((s2, keep if b else keep + [i]))
        cur = nxt
    for s, keep in cur:
        vs = [val(I, s, ps[i]) for i in keep]
        for i, v in enumerate(vs):
            I.write(s, I.ptrloc(s, ps[i]), v)
        for i in range(len(vs), len(ps) - 1):
            I.write(s, I.ptrloc(s, ps[i]), Sym("moved-from", (s.fresh(),)))
        out.append((s, ps[len(vs)]))
    return out


@model("std::reverse", "std::reverse_copy")
def m_reverse(I, st, f, obj, a, e, fr):
    ps = span(I, st, a[0], a[1])
    if ps is None:
        return models_reverse(I, st, f, obj, a, e, fr) if f["n"] == "reverse" else None
    vs = [val(I, st, p) for p in ps[:-1]][::-1]
    if f["n"] == "reverse":
        for p, v in zip(ps, vs):
            I.write(st, I.ptrloc(st, p), v)
        return models.VOID
    return emit(I, st, a[2], vs)


def emit(I, st, dst, vs):
    o = I.rv(st, dst)
    if isinstance(o, Iter):
        for i, v in enumerate(vs):
            I.write(st, I.ptrloc(st, I.step(st, o, i, None) if i else o), v)
        return [(st, I.step(st, o, len(vs), None) if vs else o)]
    if isinstance(o, Sym) and o.op == "back_inserter":
        vv = I.asvec(st, I.read(st, o.args[0]))
        I.write(st, o.args[0], Vec(vv.n + P.c(len(vs)), vv.base, vv.writes + tuple((vv.n + P.c(i), v) for i, v in enumerate(vs))))
        return [(st, o)]
    return None


@model("std::rotate")
def m_rotate(I, st, f, obj, a, e, fr):
    ps = span(I, st, a[0], a[2])
    m = span(I, st, a[0], a[1])
    if ps is None or m is None:
        return models_rotate(I, st, f, obj, a, e, fr)
    k = len(m) - 1
    n = len(ps) - 1
    if k > n:
        return None
    vs = [val(I, st, p) for p in ps[:-1]]
    for p, v in zip(ps, vs[k:] + vs[:k]):
        I.write(st, I.ptrloc(st, p), v)
    return [(st, ps[n - k])]


@model("std::copy", "std::copy_if", "std::move_backward", "std::copy_n", "std::remove_copy_if")
def m_copy(I, st, f, obj, a, e, fr):
    n = f["n"]
    if n in ("copy", "copy_if"):
        ps = span(I, st, a[0], a[1])
        if ps is None:
            return models_copy(I, st, f, obj, a, e, fr) if n == "copy" else None
        if n == "copy":
            return emit(I, st, a[2], [val(I, st, p) for p in ps[:-1]])
        cur, out = [(st, [])], []
        for p in ps[:-1]:
            nxt = []
            for s, vs in cur:
                for s2, b in test(I, s, a[3], [I.ptrloc(s, p)], e, fr):
                    if b is None:
                        out.append((s2, None))
                    else:
                        nxt.append((s2, vs + [val(I, s2, p)] if b else vs))
            cur = nxt
        for s, vs in cur:
            r = emit(I, s, a[2], vs)
            if r is None:
                return None
            out += r
        return out
    return None


@model("std::lower_bound", "std::upper_bound", "std::binary_search")
def m_bound(I, st, f, obj, a, e, fr):
    """partition point by linear scan: what the function yields on every range partitioned as its precondition demands"""
    ps = span(I, st, a[0], a[1])
    if ps is None:
        return None
    x = a[2] if isinstance(a[2], Loc) else I.newroot(st, a[2], "key")
    up = f["n"] == "upper_bound"

    def less(s, l, r):
        if len(a) > 3:
            return test(I, s, a[3], [l, r], e, fr)
        return I.branch(s, I.tobool(s, I.compare(s, "<", I.rv(s, l), I.rv(s, r), False)))
    if up:
        return chain(I, st, ps[:-1], lambda s, p: less(s, x, I.ptrloc(s, p)), lambda s, p: p, lambda s: ps[-1])
    neg = lambda s, p: [(s2, None if b is None else not b) for s2, b in less(s, I.ptrloc(s, p), x)]
    r = chain(I, st, ps[:-1], neg, lambda s, p: p, lambda s: ps[-1])
    if f["n"] == "lower_bound":
        return r
    out = []
    for s, it in r:
        if s.ab or it is ps[-1]:
            out.append((s, None if s.ab else ZERO))
        else:
            for s2, b in less(s, x, I.ptrloc(s, it)):
                out.append((s2, None if b is None else P.c(int(not b))))
    return out


@model("std::partial_sum", "std::adjacent_difference", "std::inner_product")
def m_sums(I, st, f, obj, a, e, fr):
    ps = span(I, st, a[0], a[1])
    if ps is None:
        return None
    vs = [val(I, st, p) for p in ps[:-1]]
    if not all(isinstance(v, P) for v in vs):
        return None
    if f["n"] == "inner_product" and len(a) == 4:
        ys, _, _ = second(I, st, a[:3], len(vs))
        r = I.rv(st, a[3])
        for v, p in zip(vs, ys):
            w = val(I, st, p)
            if not isinstance(w, P):
                return None
            r = r + v * w
        return [(st, r)]
    if len(a) != 3:
        return None
    out = []
    for i, v in enumerate(vs):
        out.append(v if i == 0 else (out[-1] + v if f["n"] == "partial_sum" else v - vs[i - 1]))
    return emit(I, st, a[2], out)


@model("std::swap_ranges")
def m_swapr(I, st, f, obj, a, e, fr):
    xs = span(I, st, a[0], a[1])
    if xs is None:
        return None
    ys, _, _ = second(I, st, a[:3], len(xs) - 1)
    if ys is None:
        return None
    for p, q in zip(xs[:-1], ys):
        u, v = val(I, st, p), val(I, st, q)
        I.write(st, I.ptrloc(st, p), v)
        I.write(st, I.ptrloc(st, q), u)
    return [(st, ys[len(xs) - 1])]


@model("std::generate", "std::generate_n")
def m_generate(I, st, f, obj, a, e, fr):
    if f["n"] == "generate_n":
        x, n = I.rv(st, a[0]), I.rv(st, a[1])
        n = n.const() if isinstance(n, P) else None
        if n is None or not 0 <= n <= MAXN:
            return None
        if isinstance(x, Sym) and x.op == "back_inserter":
            ps = [None] * n + [x]
        elif isinstance(x, Iter):
            ps = [I.step(st, x, i, None) if i else x for i in range(n + 1)]
        else:
            return None
    else:
        ps = span(I, st, a[0], a[1])
        if ps is None:
            return None
    cur, out = [st], []
    for p in ps[:-1]:
        nxt = []
        for s in cur:
            for s2, r in I.invoke(s, a[2], [], e, fr):
                if s2.ab:
                    out.append((s2, None))
                    continue
                v = I.rv(s2, r)
                if p is None:
                    emit(I, s2, ps[-1], [v])
                else:
                    I.write(s2, I.ptrloc(s2, p), v)
                nxt.append(s2)
        cur = nxt
    return out + [(s, models.VOID if f["n"] == "generate" else ps[-1]) for s in cur]


# ------------------------------------------------------------------ strings of constant length
def chars(I, st, v):
    n = sizeof(I, st, v).const() if isinstance(v, (Str, Vec)) else None
    if n is None or n > MAXN:
        return None
    return [I.elem(st, v, P.c(i)) for i in range(n)]


def strfind(I, st, f, obj, a, e, fr):
    """find family; only used when the analysis asks for exact results"""
    v = I.rv(st, obj)
    xs = [pval(I, st, I.rv(st, x)) for x in a]
    cs = chars(I, st, v)
    if cs is None or len(xs) > 2 or not xs:
        return None
    x = xs[0]
    pat = [x] if isinstance(x, P) else chars(I, st, x)
    pos = xs[1].const() if len(xs) > 1 and isinstance(xs[1], P) else None
    if pat is None or len(xs) > 1 and pos is None or not all(isinstance(y, P) for y in cs + pat):
        return None
    name = f["n"]
    rev = name in ("rfind", "find_last_of", "find_last_not_of")
    npos = P.c((1 << 64) - 1)
    if name in ("find", "rfind"):
        idx = range(0, len(cs) - len(pat) + 1)
        cond = lambda i: conj([c_eq(cs[i + j], y, "i") for j, y in enumerate(pat)])
    else:
        idx = range(0, len(cs))
        cond = lambda i: disj([c_eq(cs[i], y, "i") for y in pat])
        if "not" in name:
            cond = lambda i: conj([c_not(c_eq(cs[i], y, "i")) for y in pat])
    if rev:
        idx = [i for i in reversed(idx) if pos is None or i <= pos]
    else:
        idx = [i for i in idx if pos is None or i >= pos]
    return chain(I, st, idx, lambda s, i: branch(I, s, cond(i)), lambda s, i: P.c(i), lambda s: npos)


def conj(bs):
    return ("all", bs)


def disj(bs):
    return ("any", bs)


def branch(I, st, b, want=True):
    """branches on nested conjunctions and disjunctions one comparison at a time"""
    if isinstance(b, tuple):
        stop = b[0] == "any"
        out, cur = [], [st]
        for x in b[1]:
            nxt = []
            for s in cur:
                for s2, t in I.branch(s, x):
                    if t == stop:
                        out.append((s2, stop))
                    else:
                        nxt.append(s2)
            cur = nxt
        return out + [(s, not stop) for s in cur]
    return I.branch(st, b)


_old = {}
for _n in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"):
    _old[_n] = MODELS.get(("fam", "SEQ", _n))

    def _mk(n):
        def h(I, st, f, obj, a, e, fr):
            if I.split_sel:
                r = strfind(I, st, f, obj, a, e, fr)
                if r is not None:
                    return r
            return _old[n](I, st, f, obj, a, e, fr) if _old[n] else None
        return h
    MODELS[("fam", "SEQ", _n)] = _mk(_n)


@seq("starts_with", "ends_with", "contains")
def m_starts(I, st, f, obj, a, e, fr):
    v, x = I.rv(st, obj), pval(I, st, I.rv(st, a[0]))
    cs = chars(I, st, v)
    pat = [x] if isinstance(x, P) else chars(I, st, x)
    if cs is None or pat is None:
        return None
    if f["n"] == "contains":
        at = range(0, len(cs) - len(pat) + 1)
    elif len(pat) > len(cs):
        at = []
    else:
        at = [0 if f["n"] == "starts_with" else len(cs) - len(pat)]
    return chain(I, st, at, lambda s, i: branch(I, s, conj([c_eq(cs[i + j], y, "i") for j, y in enumerate(pat)])), lambda s, i: ONE, lambda s: ZERO)


@model(*["std::%s::operator()" % n for n in ("less", "greater", "less_equal", "greater_equal", "equal_to", "not_equal_to")])
def m_functor(I, st, f, obj, a, e, fr):
    n = stripta_cls(f["q"])
    return I.functor(st, Sym("ctor", (n,)), a) if len(a) == 2 else None


def stripta_cls(q):
    return q.split("<")[0] if "<" in q else q.rsplit("::", 1)[0]
