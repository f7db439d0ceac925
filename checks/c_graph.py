"""Graph generators (graph_gen.h) and graph validators (graph_val.h)."""
from itertools import product, permutations, combinations
import multiprocessing, os, re
from check import prop
from front import *
from interp import *
from envs import *
from c_args import ROOTS
from c_output import unmodelled
from c_util import vec, put, assuming
import c_rand, c_output

_g = {}
DATA = {"long": "long", "none": "GraphDetail::NoData"}


def gprog():
    if "p" not in _g:
        _g["p"] = load("graphgen.cpp", [], "c++20", roots=ROOTS)
    return _g["p"]


def interp(p):
    I = Interp(p, widen=True)
    I.keep = 4096
    I.sort_limit = 8
    I.split_sel = True
    I.oob = True
    I.selfref = {r for r in (gclass(p, d, k) for d in DATA for k in (False, True)) if r is not None}
    return I


def gclass(p, data, directed):
    c = p.__dict__.setdefault("_gcls", {})
    if not c:
        for t in p.types:
            if t.get("k") == "rec" and t.get("q") == "GraphDetail::GraphType":
                c.setdefault(t.get("s"), t["r"])
    return c.get("GraphDetail::GraphType<%s, %s>" % (DATA[data], "true" if directed else "false"))


def method(p, cls, n, np, pred=None):
    k = (cls, n, np)
    c = p.__dict__.setdefault("_gm", {})
    if k not in c or pred:
        r = [f for f in p.funcs.values() if f.get("cls") == cls and f["n"] == n and f.get("body") is not None and len(f["ps"]) == np and (pred is None or pred(f))]
        if not r:
            raise AnalysisBroken("no %s/%d in the graph class" % (n, np))
        r.sort(key=lambda f: bool(f.get("const")))
        if pred:
            return r[0]
        c[k] = r[0]
    return c[k]


class Und(Exception):
    """a case the analysis does not decide"""


class Bad(Exception):
    """a refuted obligation"""


class Case:
    """graphs of one kind inside one run of the interpreter"""

    def __init__(self, directed, data="long"):
        self.p = gprog()
        self.I = interp(self.p)
        self.D, self.data = directed, data
        self.cls = gclass(self.p, data, directed)
        if self.cls is None:
            raise AnalysisBroken("graph class not instantiated")
        self.paths = 0

    def rets(self, f, this, args, st, throws=False):
        out = []
        for q in self.I.run(f, this, args, st):
            self.paths += 1
            for e in q.ev:
                if e[0] == "oob":
                    raise Bad("%s reads an element that does not exist (%s)" % (f["n"], e[1]))
            if q.kind == "throw" and throws:
                out.append((q.st, ("throw", q.val)))
                continue
            if q.kind != "return":
                if q.kind == "throw":
                    out.append((q.st, ("throw", q.val)))
                    continue
                raise Und("%s ends with %s" % (f["n"], q.kind))
            if unmodelled(q.ev):
                raise Und("%s calls %s" % (f["n"], unmodelled(q.ev)))
            out.append((q.st, q.val))
        return out

    def m(self, n, np, cls=None):
        return method(self.p, cls or self.cls, n, np)

    def new(self, st, base, n, cls=None, name="a"):
        cls = cls or self.cls
        f = [g for g in self.p.funcs.values() if g.get("cls") == cls and g.get("ctor") and len(g["ps"]) == 2 and g.get("body") is not None]
        if not f:
            raise AnalysisBroken("no constructor of the graph class")
        l = Loc(("s", "graph", name))
        st.store[l.root] = UNINIT
        fr = Frame(("f", st.fresh()), None, None, None, 0)
        out = []
        for s in self.I.run_ctor(st, f[0], l, [base, base + P.c(n)], fr, {"ln": 0}):
            if s.ab:
                raise Und("constructor")
            out.append(s)
        return l, out

    def build(self, st, base, n, edges, name="a"):
        """graph with the edges added in order"""
        l, sts = self.new(st, base, n, name=name)
        for u, v, d in edges:
            nxt = []
            for s in sts:
                for s2, r in self.rets(self.m("addEdge", 3), l, [base + P.c(u), base + P.c(v), P.c(d)], s):
                    if isinstance(r, tuple):
                        raise Und("addEdge throws")
                    nxt.append(s2)
            sts = nxt
        return l, sts

    def loc(self, st, v):
        """location of a returned graph (reference or value)"""
        if isinstance(v, RefV):
            return v.loc
        return v if isinstance(v, Loc) else self.I.newroot(st, v, "graph")

    def number(self, st, v):
        v = self.I.rv(st, v)
        if not isinstance(v, P):
            raise Und("not a number: %s" % str(v)[:60])
        return v

    def items(self, st, v):
        v = self.I.rv(st, v)
        if isinstance(v, Sym) and v.op == "empty":
            return []
        if not isinstance(v, Vec) or v.n.const() is None:
            raise Und("list of unknown length")
        return [self.number(st, self.I.elem(st, v, P.c(i))) for i in range(v.n.const())]

    def observe(self, st, l, directed=None, data=None, light=False):
        """what the public interface shows: [(state, dict)]"""
        D = self.D if directed is None else directed
        data = data or self.data
        cls = gclass(self.p, data, D)
        sfx = {("long", False): "U", ("long", True): "D", ("none", False): "N", ("none", True): "M"}[data, D]
        k = 3 if data == "long" else 2
        out = []
        for s, n in self.rets(self.m("nodeCount", 0, cls), l, [], st):
            n = self.number(s, n).const()
            if n is None:
                raise Und("unknown number of vertices")
            for s, m in self.rets(self.m("edgeCount", 0, cls), l, [], s):
                for s, b in self.rets(self.m("getMinId", 0, cls), l, [], s):
                    b = self.number(s, b)
                    for s, es in self.rets(self.p.find("drv::eg" + sfx), None, [l], s):
                        es = self.items(s, es)
                        o = {"n": n, "m": self.number(s, m), "base": b, "edges": [tuple(es[i:i + k]) for i in range(0, len(es), k)], "nb": [], "deg": [], "has": {}}
                        cur = [s]
                        for v in range(n):
                            nxt = []
                            for s in cur:
                                for s, x in self.rets(self.p.find("drv::nb" + sfx), None, [l, b + P.c(v)], s):
                                    if isinstance(x, tuple):
                                        raise Und("neighbours throw")
                                    o["nb"].append(self.items(s, x))
                                    if not light:
                                        for s, x in self.rets(self.m("degree", 1, cls), l, [b + P.c(v)], s):
                                            o["deg"].append(self.number(s, x))
                                        for w in range(n):
                                            for s, x in self.rets(self.m("hasEdge", 2, cls), l, [b + P.c(v), b + P.c(w)], s):
                                                o["has"][v, w] = self.number(s, x)
                                    nxt.append(s)
                            if len(nxt) != 1:
                                raise Und("iteration branches")
                            cur = nxt
                        out.append((cur[0], o))
        return out


class Ref:
    """what the graph should be"""

    def __init__(self, n, base, directed, edges=()):
        self.n, self.base, self.D = n, base, directed
        self.e = {}
        for u, v, d in edges:
            self.add(u, v, d)

    def key(self, u, v):
        return (u, v) if self.D or u <= v else (v, u)

    def add(self, u, v, d=None):
        self.e[self.key(u, v)] = d

    def copy(self):
        r = Ref(self.n, self.base, self.D)
        r.e = dict(self.e)
        return r


def rel(F, x, base, n):
    """index of vertex id x, None if it is no vertex"""
    k = (x - base).const()
    if k is None:
        for i in range(n):
            if F.query(c_eq(x, base + P.c(i), "i")) is True:
                return i
        raise Und("vertex %s" % str(x)[:60])
    return k


def compare(st, o, R, data=True):
    """difference between observation and reference, None if there is none"""
    F = st.facts

    def same(a, b):
        if (a - b).const() is not None:
            return (a - b).const() == 0
        r = F.query(c_eq(a, b, "i"))
        if r is None:
            raise Und("%s == %s" % (str(a)[:40], str(b)[:40]))
        return r
    if o["n"] != R.n:
        return "%d vertices instead of %d" % (o["n"], R.n)
    if not same(o["base"], R.base):
        return "the smallest id is %s" % o["base"]
    got = {}
    for e in o["edges"]:
        u, v = rel(F, e[0], R.base, R.n), rel(F, e[1], R.base, R.n)
        k = R.key(u, v)
        if k in got:
            return "edge %s listed twice" % (k,)
        got[k] = e[2] if len(e) > 2 else None
    if set(got) != set(R.e):
        return "edges %s instead of %s" % (sorted(got), sorted(R.e))
    if not same(o["m"], P.c(len(R.e))):
        return "edgeCount %s" % o["m"]
    if data:
        for k, d in R.e.items():
            if d is not None and got[k] is not None and not same(got[k], d if isinstance(d, P) else P.c(d)):
                return "edge %s has data %s instead of %s" % (k, got[k], d)
    for v in range(R.n):
        want = sorted(b if a == v else a for a, b in R.e if a == v or (not R.D and b == v))
        nb = sorted(rel(F, x, R.base, R.n) for x in o["nb"][v])
        if nb != want:
            return "neighbours of vertex %d: %s instead of %s" % (v, nb, want)
        if o["deg"] and not same(o["deg"][v], P.c(len(want))):
            return "degree of vertex %d: %s" % (v, o["deg"][v])
    for (v, w), x in o["has"].items():
        if not same(x, P.c(int(R.key(v, w) in R.e))):
            return "hasEdge(%d, %d) == %s" % (v, w, x)
    return None


def simple(n, directed):
    return [(u, v) for u in range(n) for v in range(n) if u != v and (directed or u < v)]


def graphs(n, directed, limit=None):
    """edge lists of all simple graphs on n vertices, edges in a mixed order and mixed orientation"""
    es = simple(n, directed)
    for mask in range(1 << len(es)):
        l = [e for i, e in enumerate(es) if mask >> i & 1]
        if limit is not None and len(l) > limit:
            continue
        if mask % 3 == 1:
            l = l[::-1]
        elif mask % 3 == 2:
            l = l[1::2] + l[::2]
        if not directed:
            l = [(u, v) if (i + mask) % 2 else (v, u) for i, (u, v) in enumerate(l)]
        yield [(u, v, 10 + i) for i, (u, v) in enumerate(l)]


def base(st, spec):
    """first id of a graph: a constant or an arbitrary one"""
    if isinstance(spec, int):
        return P.c(spec)
    x = P.a(Sym("id", (spec,), I64))
    for b in (c_le(P.c(-10 ** 9), x, "i"), c_le(x, P.c(10 ** 9), "i")):
        st.facts.assume(b)
    return x


def show(D, n, edges, b):
    return "%s graph on %d vertices from %s: %s" % ("directed" if D else "undirected", n, b, " ".join("%d-%d" % e[:2] for e in edges))


# ------------------------------------------------------------------ parallel cases
def _work(t):
    fn, args = t
    try:
        return fn(*args)
    except Und as e:
        return [("und", args, str(e)[:300])], 0
    except Bad as e:
        return [(False, args, str(e)[:300])], 0
    except AnalysisBroken:
        raise
    except RecursionError:
        return [("und", args, "recursion")], 0


def spread(c, rule, tasks, name):
    """tasks [(fn, args)]: fn returns ([(verdict, construct args, detail)], paths); verdict True/False/'und'"""
    gprog()
    n = min(8, os.cpu_count() or 1)
    if len(tasks) < 4 or os.environ.get("VERIF_SERIAL"):
        rs = map(_work, tasks)
        pool = None
    else:
        ctx = multiprocessing.get_context("fork")
        pool = ctx.Pool(n)
        rs = pool.imap(_work, tasks, chunksize=max(1, min(16, len(tasks) // (4 * n))))
    for (fn, args), (res, paths) in zip(tasks, rs):
        c.count("paths", paths)
        for v, k, d in res:
            k = k if isinstance(k, str) else name(*args)
            c.expect(None if v == "und" else v, rule, k, d)
    if pool:
        pool.close()
        pool.join()


# ------------------------------------------------------------------ G05: histories of basic operations
def t_history(D, spec, n, prefix, depth):
    """every sequence of additions and removals that starts with prefix"""
    G = Case(D)
    res = []
    ops = [(o, u, v) for o in ("add", "erase") for u in range(n) for v in range(n) if u != v]

    def text(seq):
        return "%s, %d vertices from %s: %s" % ("directed" if D else "undirected", n, spec, ", ".join("%s(%d, %d)" % o for o in seq))

    def step(sts, l, R, seq, b):
        o, u, v = seq[-1]
        R2 = R.copy()
        nxt = []
        for s in sts:
            if o == "add":
                d = 10 * len(seq) + u
                rs = G.rets(G.m("addEdge", 3), l, [b + P.c(u), b + P.c(v), P.c(d)], s)
                R2.add(u, v, d)
                for s2, r in rs:
                    if isinstance(r, tuple):
                        res.append((False, text(seq), "addEdge throws %s" % (r[1],)))
                        continue
                    e = G.I.rv(s2, r)
                    if not isinstance(e, Rec):
                        raise Und("addEdge returns no edge")
                    ends = [e.get("from"), e.get("to")]
                    if ends != [b + P.c(u), b + P.c(v)]:
                        res.append((False, text(seq), "addEdge returns the edge %s - %s" % tuple(ends)))
                    nxt.append(s2)
            else:
                was = R.key(u, v) in R.e
                R2.e.pop(R.key(u, v), None)
                for s2, r in G.rets(G.m("eraseEdge", 2), l, [b + P.c(u), b + P.c(v)], s):
                    if isinstance(r, tuple):
                        res.append((False, text(seq), "eraseEdge throws"))
                        continue
                    x = s2.facts.query(c_eq(G.number(s2, r), ZERO, "i"))
                    if x is None:
                        raise Und("result of eraseEdge")
                    if x is was:
                        res.append((False, text(seq), "eraseEdge returns %s" % (not x)))
                    nxt.append(s2)
        why = None
        for s in nxt:
            for s2, ob in G.observe(s.fork(), l):
                why = why or compare(s2, ob, R2)
        res.append((why is None, text(seq), why or ""))
        return nxt, R2

    def walk(sts, l, R, seq, b):
        if len(seq) >= depth:
            return
        for o in ops:
            if o[0] == "erase" and not R.e:
                continue
            s2, R2 = step([s.fork() for s in sts], l, R, seq + [o], b)
            walk(s2, l, R2, seq + [o], b)
    st = State()
    b = base(st, spec)
    l, sts = G.new(st, b, n)
    R = Ref(n, b, D)
    seq = []
    for o in prefix:
        seq.append(o)
        sts, R = step(sts, l, R, list(seq), b)
    walk(sts, l, R, seq, b)
    return res, G.paths


def t_bounds(D, which):
    """ids outside [minId, minId + nodeCount) are rejected, ids inside accepted; loops are rejected"""
    G = Case(D)
    res = []
    st = State()
    b = base(st, "m")
    n = 3
    l, sts = G.build(st, b, n, [(0, 1, 5)])
    u, v = (P.a(Sym("vertex", (i,), I64)) for i in "uv")
    for s in sts:
        for i in range(-2, n + 3):
            for j in range(-2, n + 3) if which != "degree" else (0,):
                args = [b + P.c(i)] + ([b + P.c(j)] if which != "degree" else []) + ([P.c(7)] if which == "addEdge" else [])
                ok = 0 <= i < n and 0 <= j < n and not (which == "addEdge" and i == j)
                k = "%s(%s)" % (which, ", ".join("minId%+d" % x for x in ([i] if which == "degree" else [i, j])))
                for q in G.I.run(G.m(which, {"addEdge": 3, "degree": 1}.get(which, 2)), l, args, s.fork()):
                    G.paths += 1
                    good = q.kind == ("return" if ok else "throw")
                    res.append((good if q.kind in ("return", "throw") else "und", k, "%s ends with %s" % ("valid" if ok else "invalid", q.kind)))
    for s in sts:
        for x in (u, v):
            s.facts.assume(c_le(P.c(-2 * 10 ** 9), x, "i"))
            s.facts.assume(c_le(x, P.c(2 * 10 ** 9), "i"))
        ids = [u] if which in ("degree",) else [u, v]
        f = G.m(which, {"addEdge": 3, "degree": 1}.get(which, 2))
        args = ids + ([P.c(7)] if which == "addEdge" else [])
        for q in G.I.run(f, l, args, s):
            G.paths += 1
            F = q.facts
            inside = [c_and(c_le(b, x, "i"), c_lt(x, b + P.c(n), "i")) for x in ids]
            good = inside[0] if len(ids) == 1 else c_and(*inside)
            loop = c_eq(u, v, "i") if which == "addEdge" else ZERO
            valid = F.query(c_and(good, c_not(loop)) if which == "addEdge" else good)
            k = "%s(%s)" % (which, ", ".join(str(x) for x in ids))
            if q.kind == "throw":
                # some accepted arguments must not throw
                ok = None if valid is None else not valid
                if valid is None:
                    G2 = assuming(F, c_and(good, c_not(loop)) if which == "addEdge" else good)
                    ok = True if G2 is None else None
                res.append((("und" if ok is None else ok), k, "valid vertices rejected"))
                if F.query(good) is True and ok:
                    continue
            elif q.kind == "return":
                ok = valid
                if valid is None:
                    ok = True if assuming(F, c_not(good)) is None and assuming(F, loop) is None else None
                res.append((("und" if ok is None else ok), k, "invalid vertices accepted"))
            else:
                res.append(("und", k, q.kind))
    return res, G.paths



def finish(G, res, k, rs, l, R, data=True, cls=None, D=None):
    """compare every resulting state; l None: the returned value is the graph"""
    why, none = None, True
    for s, v in rs:
        none = False
        if isinstance(v, tuple):
            why = why or "throws %s" % (v[1],)
            continue
        x = G.loc(s, v) if l is None else l
        for s2, ob in G.observe(s, x, directed=D):
            why = why or compare(s2, ob, R, data)
    if none:
        raise Und("no path")
    res.append((why is None, k, why or ""))


def t_renumber(D, spec, n, edges):
    """setMinId, normalize, copies and assignment"""
    G = Case(D)
    res = []
    k0 = show(D, n, edges, spec)
    st = State()
    b = base(st, spec)
    l, sts = G.build(st, b, n, edges)
    R = Ref(n, b, D, edges)
    tgt = [base(st, "k")] if not isinstance(spec, int) else [P.c(0), P.c(1), P.c(-5)]
    for t in tgt:
        R2 = R.copy()
        R2.base = t
        rs = []
        for s in sts:
            s = s.fork()
            for x in (c_le(P.c(-10 ** 9), t, "i"), c_le(t, P.c(10 ** 9), "i")):
                if t.const() is None:
                    s.facts.assume(x)
            rs += G.rets(G.m("setMinId", 1), l, [t], s)
        finish(G, res, "setMinId(%s) of %s" % (t, k0), rs, l, R2)
    R2 = R.copy()
    R2.base = ZERO
    finish(G, res, "normalize of " + k0, [x for s in sts for x in G.rets(G.m("normalize", 0), l, [], s.fork())], l, R2)
    # copies are independent of the original
    for how in ("copy", "drv", 3, -3):
        out = []
        for s in sts:
            s = s.fork()
            if isinstance(how, int):
                # the graph assigned to has its own ids, above or below
                o, os_ = G.build(s, b + P.c(how), 2, [(0, 1, 3)], "o")
                for s2 in os_:
                    f = method(G.p, G.cls, "operator=", 1)
                    out += [(s3, o) for s3, r in G.rets(f, o, [l], s2)]
            elif how == "drv":
                out += G.rets(G.p.find("drv::from" + ("D" if D else "U")), None, [l], s)
            else:
                out += G.rets(G.m("copy", 0), l, [], s)
        why = None
        for s, v in out:
            x = G.loc(s, v)
            cur = [s]
            if edges:
                # change the original, look at the copy
                u, w, _ = edges[0]
                cur = [s2 for s2, r in G.rets(G.m("eraseEdge", 2), l, [b + P.c(u), b + P.c(w)], s)]
                cur = [s3 for s2 in cur for s3, r in G.rets(G.m("addEdge", 3), l, [b + P.c(edges[-1][0]), b + P.c(edges[-1][1]), P.c(99)], s2)]
            for s2 in cur:
                for s3, ob in G.observe(s2, x):
                    why = why or compare(s3, ob, R)
        res.append((why is None, "%s of %s" % ({"drv": "copy construction", "copy": "copy"}.get(how, "assignment to a graph with ids %+d" % how if isinstance(how, int) else how), k0), why or ""))
    return res, G.paths


def t_range(D, spec, n, edges):
    G = Case(D)
    res = []
    k0 = show(D, n, edges, spec)
    st = State()
    b = base(st, spec)
    l, sts = G.build(st, b, n, edges)
    for f in range(-1, n + 1):
        for t in range(f, n + 2):
            R = Ref(t - f, b + P.c(f), D, [(u - f, v - f, d) for u, v, d in edges if f <= u < t and f <= v < t])
            rs = [x for s in sts for x in G.rets(G.m("range", 2), l, [b + P.c(f), b + P.c(t)], s.fork())]
            finish(G, res, "range(%d, %d) of %s" % (f, t, k0), rs, None, R)
    return res, G.paths


def t_join(D, spec, a, o, shift):
    """combine and append of two graphs (a: (n, edges))"""
    G = Case(D)
    res = []
    k0 = "%s and %s, ids %s and %+d" % (show(D, a[0], a[1], spec), "%d vertices: %s" % (o[0], " ".join("%d-%d" % e[:2] for e in o[1])), spec, shift)
    st = State()
    b = base(st, spec)
    l, sts = G.build(st, b, a[0], a[1])
    nxt = []
    for s in sts:
        l2, ss = G.build(s, b + P.c(shift), o[0], [(u, v, d + 100) for u, v, d in o[1]], "o")
        nxt += ss
    sts = nxt
    lo, hi = min(0, shift), max(a[0], shift + o[0])
    R = Ref(hi - lo, b + P.c(lo), D, [(u - lo, v - lo, d) for u, v, d in a[1]])
    for u, v, d in o[1]:
        R.add(u + shift - lo, v + shift - lo, d + 100)
    Q = Ref(a[0] + o[0], b, D, a[1])
    for u, v, d in o[1]:
        Q.add(u + a[0], v + a[0], d + 100)
    O = Ref(o[0], b + P.c(shift), D, [(u, v, d + 100) for u, v, d in o[1]])
    for nm, X in (("combine", R), ("append", Q)):
        rs = [x for s in sts for x in G.rets(G.m(nm, 1), l, [l2], s.fork())]
        finish(G, res, "%s of %s" % (nm, k0), rs, l, X)
        if shift >= 0:
            finish(G, res, "%s leaves its argument alone: %s" % (nm, k0), rs, l2, O)
    if shift == 0:
        Q2 = Ref(2 * a[0], b, D, a[1])
        for u, v, d in a[1]:
            Q2.add(u + a[0], v + a[0], d)
        finish(G, res, "append of itself: " + k0, [x for s in sts for x in G.rets(G.m("append", 1), l, [l], s.fork())], l, Q2)
        finish(G, res, "combine with itself: " + k0, [x for s in sts for x in G.rets(G.m("combine", 1), l, [l], s.fork())], l, Ref(a[0], b, D, a[1]))
    return res, G.paths



class Prob:
    def __init__(self, st):
        self.ev, self.facts = st.ev, st.facts


def spectrum(res, k, got, want, uniform=True):
    """got {outcome: probability}; want {outcome: probability}"""
    extra = [o for o in got if o not in want]
    miss = [o for o in want if o not in got]
    off = [o for o in want if o in got and got[o] != want[o]]
    why = extra and "may yield %s" % (extra[0],) or miss and "never yields %s" % (miss[0],) or uniform and off and "%s has probability %s instead of %s" % (off[0], got[off[0]], want[off[0]])
    res.append((not why, k, why or ""))


def t_permute(D, spec, n, edges):
    """permutateEdges, permutate(perm), permutate(), subgraph"""
    G = Case(D)
    c_rand.sources(G.I)
    res = []
    k0 = show(D, n, edges, spec)
    st = State()
    b = base(st, spec)
    l, sts = G.build(st, b, n, edges)
    R = Ref(n, b, D, edges)
    m = len(edges)

    def look(rs, l, fn):
        got = {}
        for s, v in rs:
            if isinstance(v, tuple):
                o = ("throws",)
                pr = c_rand.mass(Prob(s))
                if pr is None:
                    raise Und("probability")
                got[o] = got.get(o, 0) + pr
                continue
            x = G.loc(s, v) if l is None else l
            for s2, ob in G.observe(s, x):
                pr = c_rand.mass(Prob(s2))
                if pr is None:
                    raise Und("probability")
                o = fn(s2, ob)
                got[o] = got.get(o, 0) + pr
        return got

    def listed(s, ob):
        w = compare(s, ob, R)
        return w or tuple((rel(s.facts, e[0], b, n), rel(s.facts, e[1], b, n)) for e in ob["edges"])
    es = [e[:2] for e in edges]
    want = []
    for perm in permutations(es):
        for bits in product((0, 1), repeat=0 if D else m):
            want.append(tuple((v, u) if x else (u, v) for (u, v), x in zip(perm, bits)) if not D else perm)
    f = Fraction(1, len(want))
    rs = [x for s in sts for x in G.rets(G.m("permutateEdges", 0), l, [], s.fork())]
    if len(sts) == 1:
        spectrum(res, "permutateEdges of " + k0, look(rs, l, listed), {o: f for o in want})
    # a given permutation
    pm = lambda q: method(G.p, G.cls, "permutate", 1)
    for perm in permutations(range(n)):
        Q = Ref(n, b, D, [(perm[u], perm[v], d) for u, v, d in edges])
        rs = [x for s in sts for x in G.rets(pm(0), l, [vec([b + P.c(i) for i in perm])], s.fork())]
        finish(G, res, "permutate(%s) of %s" % (perm, k0), rs, l, Q)
    for bad in [list(range(n + 1)), list(range(n - 1)), [0] * n, [i + 1 for i in range(n)], [i - 1 for i in range(n)]]:
        if sorted(bad) == list(range(n)):
            continue
        rs = [x for s in sts for x in G.rets(pm(0), l, [vec([b + P.c(i) for i in bad])], s.fork())]
        res.append((all(isinstance(v, tuple) for s, v in rs), "permutate(%s) of %s" % (bad, k0), "accepted although it is no permutation of the ids"))
    if len(sts) == 1:
        want = {}
        for perm in permutations(range(n)):
            o = tuple(sorted(R.key(perm[u], perm[v]) for u, v in es))
            want[o] = want.get(o, 0) + Fraction(1, len(list(permutations(range(n)))))

        def labelled(s, ob):
            o = tuple(sorted(R.key(rel(s.facts, e[0], b, n), rel(s.facts, e[1], b, n)) for e in ob["edges"]))
            return compare(s, ob, Ref(n, b, D, [(u, v, None) for u, v in o]), False) or o
        rs = [x for s in sts for x in G.rets(G.m("permutate", 0), l, [], s.fork())]
        spectrum(res, "permutate of " + k0, look(rs, l, labelled), want)
        for k in range(0, m + 2):
            subs = [tuple(sorted(R.key(*e) for e in x)) for x in combinations(es, min(k, m))]
            want = {o: Fraction(1, len(subs)) for o in subs}
            data = {R.key(u, v): d for u, v, d in edges}

            def labelled2(s, ob):
                o = tuple(sorted(R.key(rel(s.facts, e[0], b, n), rel(s.facts, e[1], b, n)) for e in ob["edges"]))
                return compare(s, ob, Ref(n, b, D, [(u, v, data.get((u, v))) for u, v in o])) or o
            rs = [x for s in sts for x in G.rets(G.m("subgraph", 1), l, [P.c(k)], s.fork())]
            spectrum(res, "subgraph(%d) of %s" % (k, k0), look(rs, None, labelled2), want)
    return res, G.paths


# ------------------------------------------------------------------ G04: transformations
def reach(n, arcs, k):
    """pairs (u, v), u != v, with a walk of at most k arcs from u to v"""
    out = set()
    for u in range(n):
        cur = {u}
        for _ in range(max(0, min(k, n))):
            cur |= {w for v in cur for a, w in arcs if a == v}
        out |= {(u, v) for v in cur if v != u}
    return out


def t_transform(D, spec, n, edges):
    G = Case(D)
    res = []
    k0 = show(D, n, edges, spec)
    st = State()
    b = base(st, spec)
    l, sts = G.build(st, b, n, edges)
    R = Ref(n, b, D, edges)
    es = [e[:2] for e in edges]
    arcs = set(es) | (set() if D else {(v, u) for u, v in es})
    plain = lambda E, m=n, bb=b: Ref(m, bb, D, [(u, v, None) for u, v in E])

    def go(nm, np, args, X, data=False):
        finish(G, res, "%s(%s) of %s" % (nm, ", ".join(map(str, args)), k0), [x for s in sts for x in G.rets(G.m(nm, np), l, args, s.fork())], None, X, data)
    go("complement", 0, [], plain([e for e in simple(n, D) if R.key(*e) not in R.e]))
    for k in range(0, n + 1):
        go("power", 1, [P.c(k)], plain(reach(n, arcs, k)))
    go("transitiveClosure", 0, [], plain(reach(n, arcs, n)))
    # the line graph numbers the edges as getEdges lists them
    why = None
    for s in sts:
        for s2, ob in G.observe(s.fork(), l, light=True):
            L = [(rel(s2.facts, e[0], b, n), rel(s2.facts, e[1], b, n)) for e in ob["edges"]]
            E = [(i, j) for i, e in enumerate(L) for j, f in enumerate(L) if i != j and (e[1] == f[0] if D else i < j and set(e) & set(f))]
            for s3, v in G.rets(G.m("lineGraph", 0), l, [], s2.fork()):
                if isinstance(v, tuple):
                    why = why or "throws"
                    continue
                for s4, o2 in G.observe(s3, G.loc(s3, v)):
                    why = why or compare(s4, o2, Ref(len(L), ZERO, D, [(u, w, None) for u, w in E]), False)
    res.append((why is None, "lineGraph of " + k0, why or ""))
    if D:
        Q = Ref(n, b, True, [(v, u, d) for u, v, d in edges])
        finish(G, res, "reverse of " + k0, [x for s in sts for x in G.rets(G.p.find("drv::rev"), None, [l], s.fork())], l, Q)
        Q = Ref(n, b, False)
        for u, v, d in edges:
            Q.e[Q.key(u, v)] = None if Q.key(u, v) in Q.e else d
        finish(G, res, "undirected of " + k0, [x for s in sts for x in G.rets(G.p.find("drv::und"), None, [l], s.fork())], None, Q, D=False)
    else:
        for fn, pred in (("dir0", lambda a, x, d: True), ("dir2", lambda a, x, d: a < x), ("dir3", lambda a, x, d: a < x or d % 2 == 1)):
            Q = Ref(n, b, True, [(x, y, d) for u, v, d in edges for x, y in ((u, v), (v, u)) if pred(x, y, d)])
            finish(G, res, "%s of %s" % ({"dir0": "directed", "dir2": "directed(from < to)", "dir3": "directed(from < to or data odd)"}[fn], k0), [x for s in sts for x in G.rets(G.p.find("drv::" + fn), None, [l], s.fork())], None, Q, D=True)
    return res, G.paths


def t_product(D, spec, a, o, shift):
    G = Case(D)
    res = []
    k0 = "%s and %s" % (show(D, a[0], a[1], spec), "%d vertices from %s%+d: %s" % (o[0], spec, shift, " ".join("%d-%d" % e[:2] for e in o[1])))
    st = State()
    b = base(st, spec)
    l, sts = G.build(st, b, a[0], a[1])
    nxt = []
    for s in sts:
        l2, ss = G.build(s, b + P.c(shift), o[0], o[1], "o")
        nxt += ss
    sts = nxt
    n, m = a[0], o[0]
    A, O = [e[:2] for e in a[1]], [e[:2] for e in o[1]]
    cart = [(u + n * x, v + n * x) for u, v in A for x in range(m)] + [(x + n * u, x + n * v) for u, v in O for x in range(n)]
    tens = [(u + n * x, v + n * y) for u, v in A for p, q in O for x, y in ((p, q), (q, p))]
    Z = lambda E, nn=n * m: Ref(nn, ZERO, D, [(u, v, None) for u, v in E])
    swap = lambda E: [((u % n) * m + u // n, (v % n) * m + v // n) for u, v in E]
    finish(G, res, "cartesian of " + k0, [x for s in sts for x in G.rets(G.m("cartesian", 1), l, [l2], s.fork())], None, Z(cart), False)
    if not D:
        finish(G, res, "product of " + k0, [x for s in sts for x in G.rets(G.p.find("drv::prod"), None, [l, l2], s.fork())], None, Z(tens), False)
        rs = [x for s in sts for x in G.rets(G.p.find("drv::strong"), None, [l, l2], s.fork())]
        # the pairs may be numbered by rows or by columns
        alt = []
        finish(G, alt, "strongProduct of " + k0, rs, None, Z(swap(cart + tens)), False)
        if not alt[0][0]:
            alt2 = []
            finish(G, alt2, "strongProduct of " + k0, rs, None, Z(cart + tens), False)
            alt = alt2 if alt2[0][0] else alt
        res += alt
    return res, G.paths


@prop("G04", floor=300)
def g04(c):
    c.rule("transform", "the transformed graph has exactly the documented vertices and edges and consistent views")
    tasks = []
    for D in (False, True):
        for n in (0, 1, 2, 3) + ((4,) if not D or c.thorough else ()):
            for i, es in enumerate(graphs(n, D)):
                if n == 4 and D and i % 8:
                    continue
                tasks.append((t_transform, (D, 2, n, es)))
                if n <= 3 and len(es) <= 2:
                    tasks.append((t_transform, (D, "m", n, es)))
        if D:
            # chains and circuits whose closure needs every step
            for es in ([(0, 1), (1, 2), (2, 3)], [(3, 2), (2, 1), (1, 0)], [(0, 1), (1, 2), (2, 3), (3, 0)], [(1, 3), (3, 0), (0, 2)], [(0, 1), (1, 0), (2, 3), (3, 2)], [(0, 1), (0, 2), (1, 3), (2, 3)], [(0, 1), (1, 2), (2, 3), (3, 4)], [(4, 2), (2, 0), (0, 3), (3, 1), (1, 4)]):
                tasks.append((t_transform, (D, 2, 1 + max(max(e) for e in es), [(u, v, 10 + i) for i, (u, v) in enumerate(es)])))
        parts = [(0, []), (1, []), (2, []), (2, [(1, 0, 10)]), (3, [(0, 1, 10), (2, 1, 11)]), (3, [(0, 1, 10), (1, 2, 11), (2, 0, 12)])]
        for a in parts:
            for o in parts:
                tasks.append((t_product, (D, 2, a, o, 3)))
        tasks.append((t_product, (D, "m", parts[3], parts[4], 5)))
    spread(c, "transform", tasks, lambda *a: str(a)[:200])


@prop("G05", floor=500)
def g05(c):
    c.rule("history", "after every sequence of additions and removals the edge list, the neighbour lists, degrees, hasEdge and edgeCount show exactly the edges added and not removed, each once, with the data given last")
    c.rule("ids", "vertex ids outside the graph and loops are rejected, all others accepted")
    c.rule("operation", "the operation yields exactly the documented vertices and edges, and a graph whose views agree")
    tasks = []
    D3 = 3
    for D in (False, True):
        firsts = [("add", 0, 1), ("add", 1, 0), ("add", 2, 0), ("add", 1, 2)] if not c.thorough else [("add", u, v) for u in range(3) for v in range(3) if u != v]
        for o1 in firsts:
            for o2 in [(o, u, v) for o in ("add", "erase") for u in range(3) for v in range(3) if u != v]:
                tasks.append((t_history, (D, 4, 3, [o1, o2], D3 + (1 if c.thorough else 0))))
        tasks.append((t_history, (D, "m", 3, [], 2)))
    spread(c, "history", tasks, lambda *a: str(a)[:120])
    spread(c, "ids", [(t_bounds, (D, w)) for D in (False, True) for w in ("addEdge", "hasEdge", "eraseEdge", "findEdge", "degree")], lambda *a: str(a))
    tasks = []
    for D in (False, True):
        for n in (0, 1, 2, 3) + ((4,) if c.thorough and not D else ()):
            for es in graphs(n, D):
                if not D or n < 3 or c.thorough or len(es) <= 3 or len(es) == 6:
                    tasks.append((t_renumber, (D, 3, n, es)))
                    tasks.append((t_range, (D, 3, n, es)))
                if len(es) <= 2:
                    tasks.append((t_renumber, (D, "m", n, es)))
                if len(es) <= 1:
                    tasks.append((t_range, (D, "m", n, es)))
        pairs = [(0, []), (1, []), (2, [(0, 1, 10)]), (3, [(0, 1, 10), (2, 1, 11)]), (3, [(2, 0, 10), (1, 2, 11)])]
        for a in pairs:
            for o in pairs:
                for sh in (-2, -1, 0, 1, 2, 4):
                    tasks.append((t_join, (D, 3, a, o, sh)))
        tasks.append((t_join, (D, "m", pairs[3], pairs[2], 1)))
        tasks.append((t_join, (D, "m", pairs[3], pairs[2], -1)))
    spread(c, "operation", tasks, lambda fn, *a: str(a)[:200])
    c.rule("random", "every order, orientation, renumbering or selection the operation may draw is possible and equally likely")
    tasks = []
    for D in (False, True):
        for n in (1, 2, 3):
            for es in graphs(n, D):
                if len(es) <= 3 if not c.thorough else 4:
                    tasks.append((t_permute, (D, 2, n, es)))
        tasks.append((t_permute, (D, 3, 4, [(0, 1, 10), (2, 3, 11)])))
    spread(c, "random", tasks, lambda *a: str(a)[:200])


# ------------------------------------------------------------------ G03: named graphs
def named(big):
    """(driver function, directed, arguments, vertices, edges)"""
    N = range(0, 7 if not big else 10)
    for n in N:
        yield "ind", False, (n,), n, []
        cl = [(u, v) for v in range(n) for u in range(v)]
        yield "cliqueU", False, (n,), n, cl
        yield "cliqueD", True, (n,), n, cl
        for m in range(0, 5):
            bp = [(u, n + v) for u in range(n) for v in range(m)]
            yield "bipU", False, (n, m), n + m, bp
            yield "bipD", True, (n, m), n + m, bp
        st = [(0, i) for i in range(1, n + 1)]
        yield "starU", False, (n,), n + 1, st
        yield "starD", True, (n,), n + 1, st
        pa = [(i, i + 1) for i in range(n)]
        yield "pathU", False, (n,), n + 1, pa
        yield "pathD", True, (n,), n + 1, pa
        cy = [(i, (i + 1) % n) for i in range(n)]
        if n >= 3:
            yield "cycleU", False, (n,), n, cy
            yield "wheelU", False, (n,), n + 1, st + [(1 + a, 1 + b) for a, b in cy]
        if n >= 2:
            yield "cycleD", True, (n,), n, cy
        for m in range(0, 6):
            if m:
                yield "lollyU", False, (n, m), n + m, pa + [(n + u, n + v) for v in range(m) for u in range(v)]
            yield "broomU", False, (n, m), n + m + 1, pa + [(n, n + i) for i in range(1, m + 1)]
            if n and m:
                yield "gridU", False, (n, m), n * m, [(i + n * j, i + 1 + n * j) for i in range(n - 1) for j in range(m)] + [(i + n * j, i + n * j + n) for i in range(n) for j in range(m - 1)]
        if n:
            yield "gridQ", False, (n,), n * n, [(i + n * j, i + 1 + n * j) for i in range(n - 1) for j in range(n)] + [(i + n * j, i + n * j + n) for i in range(n) for j in range(n - 1)]
    for d in range(0, 5):
        up = [(a, a ^ (1 << i)) for a in range(1 << d) for i in range(d) if a >> i & 1]
        yield "cubeU", False, (d,), 1 << d, up
        yield "latU", False, (d,), 1 << d, up
        yield "latD", True, (d,), 1 << d, up
    for n in (0, 1, 2, 3, 5, 8, 11, 18) + ((35,) if big else ()):
        ra = [(a, b) for b in range(n) for a in range(b) if b >> a & 1]
        yield "radoU", False, (n,), n, ra
        yield "radoD", True, (n,), n, ra


def observed_edges(G, s, v, D):
    """(n, edge list) of a returned graph with ids from 0, views checked against each other"""
    x = G.loc(s, v)
    obs = G.observe(s, x, directed=D, light=True)
    if len(obs) != 1:
        raise Und("several graphs on one path")
    s2, ob = obs[0]
    if ob["base"].const() != 0:
        return None, "the smallest id is %s" % ob["base"], s2
    L = [(rel(s2.facts, e[0], ZERO, ob["n"]), rel(s2.facts, e[1], ZERO, ob["n"])) for e in ob["edges"]]
    w = compare(s2, ob, Ref(ob["n"], ZERO, D, [(u, v, None) for u, v in L]), False)
    return (ob["n"], L), w, s2


def t_named(fn, D, args, n, edges):
    G = Case(D, "none")
    res = []
    rs = G.rets(G.p.find("drv::" + fn), None, [P.c(a) for a in args], State())
    why = None
    for s, v in rs:
        if isinstance(v, tuple):
            why = "throws %s" % (v[1],)
            continue
        obs = G.observe(s, G.loc(s, v), light=n > 12)
        for s2, ob in obs:
            why = why or compare(s2, ob, Ref(n, ZERO, D, [(u, w, None) for u, w in edges]), False)
    if not rs:
        raise Und("no path")
    return [(why is None, "%s%s" % (fn, args), why or "")], G.paths


def t_ctree(D, k, top):
    """complete k-ary trees: shape, root, consecutive subtrees, one level more per step"""
    G = Case(D, "none")
    res = []
    last = None
    for level in range(2, top + 1):
        nm = "completeTree(%d, %d)%s" % (level, k, " directed" if D else "")
        for s, v in G.rets(G.p.find("drv::ctree" + ("D" if D else "U")), None, [P.c(level), P.c(k)], State()):
            if isinstance(v, tuple):
                res.append((False, nm, "throws"))
                continue
            g, why, s2 = observed_edges(G, s, v, D)
            if why is None:
                why, depth = treeshape(g[0], g[1], D, k)
                if why is None and last is not None and depth != last + 1:
                    why = "%d levels below the root, %d for the level before" % (depth, last)
                last = depth
            res.append((why is None, nm, why or ""))
    return res, G.paths


def treeshape(n, L, D, k):
    if len(L) != n - 1:
        return "%d edges on %d vertices" % (len(L), n), 0
    ch = {v: [] for v in range(n)}
    seen, work = {0}, [0]
    while work:
        v = work.pop()
        for a, b in L:
            for x, y in ((a, b),) if D else ((a, b), (b, a)):
                if x == v and y not in seen:
                    seen.add(y)
                    ch[v].append(y)
                    work.append(y)
    if len(seen) != n:
        return "not every vertex can be reached from the root 0", 0
    depth, size = {0: 0}, {}

    def walk(v):
        sub = [v]
        for y in ch[v]:
            depth[y] = depth[v] + 1
            sub += walk(y)
        if sorted(sub) != list(range(v, v + len(sub))):
            size["bad"] = v
        return sub
    walk(0)
    if "bad" in size:
        return "the subtree of %d is not consecutive" % size["bad"], 0
    leaves = [v for v in ch if not ch[v]]
    if any(len(ch[v]) not in (0, k) for v in ch):
        return "a vertex has %d children" % [len(ch[v]) for v in ch if len(ch[v]) not in (0, k)][0], 0
    if len({depth[v] for v in leaves}) != 1:
        return "leaves on different levels", 0
    return None, depth[leaves[0]]


@prop("G03", floor=250)
def g03(c):
    c.rule("named", "the generated graph has exactly the documented vertices and edges")
    tasks = [(t_named, t) for t in named(c.thorough)]
    for D in (False, True):
        tasks += [(t_ctree, (D, k, 4 if k > 2 else 5)) for k in (1, 2, 3)]
    spread(c, "named", tasks, lambda *a: str(a)[:120])


# ------------------------------------------------------------------ G06: random graphs
def distinct_hook(I):
    """Random::distinct(k, lo, hi): every k-subset of the range, equally likely (checked by N07)"""
    def h(I, st, f, obj, args, e, fr):
        if len(args) == 2:
            args = [args[0], ZERO, args[1]]
        k, lo, hi = [I.rv(st, x) for x in args]
        n = (hi - lo).const() if isinstance(hi, P) and isinstance(lo, P) else None
        if n is None or not isinstance(k, P):
            return None
        out = []
        ks = [k.const()] if k.const() is not None else list(range(-1, max(n, 0) + 2))
        for x in ks:
            s = st.fork()
            a = k.atom() if k.const() is None and hasattr(k, "atom") else None
            if isinstance(a, Sym) and a.op == "f2i" and s.facts.query(c_le(ZERO, a.args[0], "f")) is True:
                # the integral part of a real number that is not negative
                bs = [c_le(P.c(x), a.args[0], "f")] + ([c_lt(a.args[0], P.c(x + 1), "f")] if x <= n else [])
                if x < 0 or any(s.facts.query(b) is False for b in bs):
                    continue
                for b in bs:
                    s.facts.assume(b)
            elif k.const() is None:
                b = c_eq(k, P.c(x), "i") if 0 <= x <= n else c_lt(k, ZERO, "i") if x < 0 else c_lt(P.c(n), k, "i")
                if s.facts.query(b) is False:
                    continue
                s.facts.assume(b)
                if s.facts.query(c_le(ZERO, ZERO, "i")) is not True:
                    continue
            if not 0 <= x <= n:
                out.append(c_rand.throwing(s, "std::invalid_argument"))
                continue
            subs = list(combinations(range(n), x))
            for i, sub in enumerate(subs):
                z = s.fork()
                z.ev = z.ev + [("draw", len(subs), i), ("distinct", x, lo, hi)]
                out.append((z, vec([lo + P.c(v) for v in sub])))
        return out
    I.hooks["Random::distinct"] = h


def edge_outcome(G, s, v, D, n):
    """sorted edge tuple of a returned graph, or a text saying what is wrong with it"""
    g, why, s2 = observed_edges(G, s, v, D)
    if why:
        return why, s2
    if g[0] != n:
        return "%d vertices" % g[0], s2
    return tuple(sorted(e if D or e[0] < e[1] else e[::-1] for e in g[1])), s2


def universe(kind, D, dims):
    if kind == "bip":
        n, m = dims
        u = [(a, n + b) for a in range(n) for b in range(m)]
        return n + m, sorted(u + [(y, x) for x, y in u] if D else u)
    n = dims[0]
    return n, sorted(simple(n, D))


def t_count(kind, D, dims, k):
    """k edges, every set of k edges equally likely"""
    G = Case(D, "none")
    distinct_hook(G.I)
    c_rand.sources(G.I)
    fn = {"bip": "rbip", "graph": "rgraph"}[kind] + "UD"[D]
    n, U = universe(kind, D, dims)
    nm = "%s(%s)%s" % ({"bip": "randomBipartite", "graph": "randomGraph"}[kind], ", ".join(map(str, dims + (k,))), " directed" if D else "")
    got = {}
    for s, v in G.rets(G.p.find("drv::" + fn), None, [P.c(x) for x in dims + (k,)], State()):
        o, s2 = (("throws",), s) if isinstance(v, tuple) else edge_outcome(G, s, v, D, n)
        pr = c_rand.mass(Prob(s2))
        if pr is None:
            raise Und("probability")
        got[o] = got.get(o, 0) + pr
    res = []
    if 0 <= k <= len(U):
        subs = list(combinations(U, k))
        spectrum(res, nm, got, {o: Fraction(1, len(subs)) for o in subs})
    else:
        spectrum(res, nm, got, {("throws",): Fraction(1)})
    return res, G.paths


def t_prob(kind, D, dims):
    """every edge with probability p: the number of edges is binomial over all possible edges, and
    given their number every set of edges is equally likely"""
    G = Case(D, "none")
    distinct_hook(G.I)
    c_rand.sources(G.I)
    fn = {"bip": "rbipp", "graph": "rgraphp"}[kind] + "UD"[D]
    n, U = universe(kind, D, dims)
    nm = "%s(%s, p)%s" % ({"bip": "randomBipartite", "graph": "randomGraph"}[kind], ", ".join(map(str, dims)), " directed" if D else "")
    st = State()
    p = P.a(Sym("p", ("p",), F80))
    for b in (c_le(ZERO, p, "f"), c_le(p, ONE, "f")):
        st.facts.assume(b)

    def hbin(I, s, f, obj, args, e, fr):
        if len(args) != 2:
            return None
        N, q = [I.rv(s, x) for x in args]
        if not isinstance(N, P) or N.const() is None or N.const() < 0:
            return None
        out = []
        for k in range(N.const() + 1):
            z = s.fork()
            z.ev = z.ev + [("binomial", N.const(), q, k)]
            out.append((z, P.c(k)))
        return out
    G.I.hooks["Random::binomial"] = hbin
    got, res, why = {}, [], None
    for s, v in G.rets(G.p.find("drv::" + fn), None, [P.c(x) for x in dims] + [p], st):
        b = [e for e in s.ev if e[0] == "binomial"]
        if len(b) != 1:
            raise Und("%d binomial draws" % len(b))
        if b[0][1] != len(U) or not (b[0][2] - p).const() == 0:
            why = why or "%s trials with probability %s for %d possible edges" % (b[0][1], b[0][2], len(U))
        o, s2 = (("throws",), s) if isinstance(v, tuple) else edge_outcome(G, s, v, D, n)
        pr = c_rand.mass(Prob(s2))
        if pr is None:
            raise Und("probability")
        g = got.setdefault(b[0][3], {})
        g[o] = g.get(o, 0) + pr
    res.append((why is None, nm, why or ""))
    for k, g in got.items():
        if 0 <= k <= len(U):
            subs = list(combinations(U, k))
            spectrum(res, nm + " with %d edges" % k, g, {o: Fraction(1, len(subs)) for o in subs})
    return res, G.paths


def decode(code):
    """tree of a Pruefer code"""
    n = len(code) + 2
    deg = [1] * n
    for x in code:
        deg[x] += 1
    out = []
    for x in code:
        y = min(v for v in range(n) if deg[v] == 1)
        out.append((min(x, y), max(x, y)))
        deg[x] -= 1
        deg[y] -= 1
    out.append(tuple(v for v in range(n) if deg[v] == 1))
    return tuple(sorted(out))


def t_pruefer(n, first):
    G = Case(False, "none")
    res = []
    for rest in product(range(n), repeat=n - 2 - len(first)):
        code = first + rest
        why = None
        for s, v in G.rets(G.p.find("drv::pruef"), None, [vec([P.c(x) for x in code])], State()):
            o, s2 = (("throws",), s) if isinstance(v, tuple) else edge_outcome(G, s, v, False, n)
            if o != decode(code):
                why = "%s instead of %s" % (o, decode(code))
        res.append((why is None, "pruefer(%s)" % (list(code),), why or ""))
    return res, G.paths


def rooted(n, T):
    """arcs of the tree T away from 0"""
    out, seen, work = [], {0}, [0]
    while work:
        v = work.pop()
        for a, b in T:
            for x, y in ((a, b), (b, a)):
                if x == v and y not in seen:
                    seen.add(y)
                    out.append((x, y))
                    work.append(y)
    return tuple(sorted(out))


def t_tree(D, n):
    G = Case(D, "none")
    G.I.selfref |= {gclass(G.p, "none", False)}
    c_rand.sources(G.I)
    got = {}
    for s, v in G.rets(G.p.find("drv::rtree" + "UD"[D]), None, [P.c(n)], State()):
        o, s2 = (("throws",), s) if isinstance(v, tuple) else edge_outcome(G, s, v, D, n)
        pr = c_rand.mass(Prob(s2))
        if pr is None:
            raise Und("probability")
        got[o] = got.get(o, 0) + pr
    trees = sorted({decode(c) for c in product(range(n), repeat=n - 2)}) if n >= 2 else [()]
    if D:
        trees = [rooted(n, t) for t in trees]
    res = []
    spectrum(res, "randomTree(%d)%s" % (n, " directed" if D else ""), got, {t: Fraction(1, len(trees)) for t in trees})
    return res, G.paths


def graphical(seq):
    seq = sorted(seq, reverse=True)
    if any(x < 0 or x >= len(seq) for x in seq):
        return False
    while seq and seq[0] > 0:
        d = seq.pop(0)
        for i in range(d):
            seq[i] -= 1
        if min(seq) < 0:
            return False
        seq.sort(reverse=True)
    return True


def t_degrees(n, first, flips, free):
    """degree sequences: realised exactly, or rejected if no simple graph has them; the first `free`
    choices of edges to flip are arbitrary, later ones fixed"""
    G = Case(False, "none")
    res = []
    count = Sym("steps", (), I64)

    def hint(I, st, f, obj, args, e, fr):
        a = [I.rv(st, x) for x in args]
        lo, hi = (ZERO, a[0]) if len(a) == 1 else (a[0], a[1])
        n = (hi - lo).const()
        if n is None:
            return None
        if n <= 0:
            return [c_rand.throwing(st, "std::invalid_argument")]
        used = sum(1 for e in st.ev if e[0] == "draw")
        out = []
        for i in range(n if used < free else 1):
            z = st.fork()
            z.ev = z.ev + [("draw", n, i)]
            out.append((z, lo + P.c(i)))
        return out
    G.I.hooks["Random::integer"] = hint
    for rest in product(range(-1, n + 1), repeat=n - len(first)):
        seq = first + rest
        nm = "randomGraph({%s}, %d)" % (", ".join(map(str, seq)), flips)
        ok, why, k = graphical(seq), None, 0
        if free and not ok:
            continue
        for s, v in G.rets(G.p.find("drv::rdeg"), None, [vec([P.c(x) for x in seq]), P.c(flips)], State()):
            k += 1
            if isinstance(v, tuple):
                why = why or (ok and "throws although a graph with these degrees exists" or None)
                continue
            if not ok:
                why = why or "returns a graph although none has these degrees"
                continue
            o, s2 = edge_outcome(G, s, v, False, n)
            if isinstance(o, str):
                why = why or o
                continue
            deg = [sum(1 for e in o if x in e) for x in range(n)]
            if deg != list(seq):
                why = why or "degrees %s, edges %s" % (deg, o)
        res.append((why is None and k > 0, nm, why or "no result"))
    return res, G.paths


def t_grow(n, p):
    """every vertex is joined to distinct earlier vertices, as many as drawn"""
    G = Case(False, "none")
    distinct_hook(G.I)
    c_rand.sources(G.I)
    res = []

    def hreal(I, st, f, obj, args, e, fr):
        if not args:
            return None
        a = [I.rv(st, x) for x in args]
        lo, hi = (ZERO, a[0]) if len(a) == 1 else (a[0], a[1])
        if not isinstance(lo, P) or not isinstance(hi, P):
            return None
        r = P.a(Sym("rndreal", (st.fresh(),), F80))
        st.facts.assume(c_le(lo, r, "f"))
        st.facts.assume(c_lt(r, hi, "f"))
        st.ev = st.ev + [("real", r, lo, hi)]
        return [(st, r)]
    G.I.hooks["Random::real"] = hreal
    got = {}
    why = None
    k = 0
    for s, v in G.rets(G.p.find("drv::rgrow"), None, [P.c(n), P.c(p)], State()):
        k += 1
        if isinstance(v, tuple):
            why = why or "throws"
            continue
        o, s2 = edge_outcome(G, s, v, False, n)
        if isinstance(o, str):
            why = why or o
            continue
        real = [e for e in s2.ev if e[0] == "real"]
        if len(real) != n:
            raise Und("%d real draws" % len(real))
        pr = c_rand.mass(Prob(s2))
        for i, (_, r, lo, hi) in enumerate(real):
            if (lo.const(), hi.const()) != (0, i + 1):
                why = why or "draws from [%s, %s) for vertex %d" % (lo, hi, i)
            d = sum(1 for e in o if e[1] == i)
            a = s2.facts.query(c_le(P.c(d), r * P.c(p), "f"))
            b = s2.facts.query(c_lt(r * P.c(p), P.c(d + 1), "f"))
            if a is False or b is False:
                why = why or "vertex %d gets %d edges" % (i, d)
            elif a is None or b is None:
                raise Und("number of edges of vertex %d: %s" % (i, d))
        got[o] = got.get(o, 0) + pr
    if why is None:
        # given the numbers, every choice is equally likely
        per = {}
        for o, pr in got.items():
            t = tuple(sum(1 for e in o if e[1] == i) for i in range(n))
            per.setdefault(t, {})[o] = pr
        for t, g in per.items():
            tot = 1
            for i, d in enumerate(t):
                tot *= len(list(combinations(range(i), d)))
            if len(g) != tot or len(set(g.values())) != 1 or sum(g.values()) != 1:
                why = why or "with %s earlier neighbours %d of %d graphs" % (t, len(g), tot)
        want = 1
        for i in range(n):
            want *= len({int(Fraction(p) * x) for x in [Fraction(j, 8) for j in range(8 * (i + 1))]})
        if len(per) != want:
            why = why or "%d combinations of degrees instead of %d" % (len(per), want)
    res.append((why is None and k > 0, "randomGrowingGraph(%d, %s)" % (n, p), why or "no result"))
    return res, G.paths


def t_growbad(p):
    G = Case(False, "none")
    distinct_hook(G.I)

    def hreal(I, st, f, obj, args, e, fr):
        if not args:
            return None
        a = [I.rv(st, x) for x in args]
        return [(st, a[0] if len(a) > 1 else ZERO)]
    G.I.hooks["Random::real"] = hreal
    rs = G.rets(G.p.find("drv::rgrow"), None, [P.c(3), P.c(p)], State())
    return [(all(isinstance(v, tuple) for s, v in rs), "randomGrowingGraph(3, %s)" % p, "is accepted although the probability lies outside [0, 1]")], G.paths


@prop("G06", floor=300)
def g06(c):
    c.rule("uniform", "exactly the requested number of edges, every set of that many possible edges equally likely; more edges than possible are rejected")
    c.rule("bernoulli", "the number of edges is binomial over all possible edges with the given probability, and given their number every set is equally likely")
    c.rule("pruefer", "the tree is the one of its Pruefer code")
    c.rule("tree", "every labelled tree is equally likely; directed trees have root 0")
    c.rule("degrees", "the graph is simple and has exactly the given degrees; a sequence is rejected exactly if no simple graph has it; switching edges keeps all degrees")
    c.rule("growing", "vertex i is joined to floor(p*X) distinct earlier vertices, X uniform over [0, i+1)")
    c.assume("Random::distinct, Random::integer and Random::binomial draw as stated in N02, N05 and N07")
    T = []
    for D in (False, True):
        for n in range(0, 5 if not D or c.thorough else 4):
            U = len(universe("graph", D, (n,))[1])
            for k in range(-1, U + 2):
                T.append((t_count, ("graph", D, (n,), k)))
            if n and len(universe("graph", D, (n,))[1]) <= (6 if not c.thorough else 12):
                T.append((t_prob, ("graph", D, (n,))))
        for n in range(4, 9 if not c.thorough else 14):
            T.append((t_count, ("graph", D, (n,), 1)))
        for n, m in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 4), (3, 1), (2, 3), (3, 2)] + ([(3, 3)] if c.thorough and not D else []):
            U = len(universe("bip", D, (n, m))[1])
            for k in range(-1, U + 2):
                if D and U > 8 and 2 < k < U - 1 and not c.thorough:
                    continue
                T.append((t_count, ("bip", D, (n, m), k)))
            if U <= (8 if not c.thorough else 12):
                T.append((t_prob, ("bip", D, (n, m))))
        for n, m in [(3, 4), (4, 3), (5, 2), (2, 6), (1, 7), (5, 5)]:
            T.append((t_count, ("bip", D, (n, m), 1)))
    spread(c, "uniform", [t for t in T if t[0] is t_count], lambda *a: str(a))
    spread(c, "bernoulli", [t for t in T if t[0] is t_prob], lambda *a: str(a))
    T = [(t_pruefer, (n, f)) for n in range(2, 6 if not c.thorough else 7) for f in product(range(n), repeat=min(1, n - 2))]
    spread(c, "pruefer", T, lambda *a: str(a))
    T = [(t_tree, (D, n)) for D in (False, True) for n in range(1, 6 if not c.thorough else 6) if n < 5 or not D or c.thorough]
    spread(c, "tree", T, lambda *a: str(a))
    T = []
    for n in range(0, 5):
        for f in product(range(-1, n + 1), repeat=min(n, 2)):
            T.append((t_degrees, (n, f, 0, 0)))
    for n in range(2, 5 if not c.thorough else 6):
        for f in product(range(0, n), repeat=2):
            T.append((t_degrees, (n, f, 1, 2)))
            if n <= 4 and c.thorough:
                T.append((t_degrees, (n, f, 1, 4)))
    spread(c, "degrees", T, lambda *a: str(a))
    T = [(t_grow, (n, p)) for n in range(0, 5) for p in (0, 1, Fraction(1, 2), Fraction(3, 4))] + [(t_growbad, (p,)) for p in (-1, 2, Fraction(-1, 8), Fraction(9, 8))]
    spread(c, "growing", T, lambda *a: str(a))


# ------------------------------------------------------------------ G07: output, determinism
def t_print(D, data, spec, n, edges, kind):
    G = Case(D, data)
    res = []
    st = State()
    b = base(st, spec)
    if data == "long":
        l, sts = G.build(st, b, n, edges)
    else:
        l, sts = G.new(st, b, n)
        for u, v, d in edges:
            sts = [s2 for s in sts for s2, r in G.rets(G.p.find("drv::add" + "NM"[D]), None, [l, b + P.c(u), b + P.c(v)], s)]
    sfx = {("long", False): "U", ("long", True): "D", ("none", False): "N", ("none", True): "M"}[data, D]
    nm = "%s << %s%s" % ({"O": "OutputStream", "S": "std::ostream"}[kind], show(D, n, edges, spec), "" if data == "long" else " (no data)")
    R = Ref(n, b, D, edges)
    for s in sts:
        for s, o in G.observe(s, l, light=True):
            why = compare(s, o, R, data == "long")
            if kind == "O":
                os = ostream_obj(G.I, s, G.p, "o")
            else:
                os = Loc(("s", "sink", "o"))
                s.store[os.root] = Sym("sink", ("o",))
            s.ev = []
            want = [Sym("intout", (P.c(n),)), Str(" "), Sym("intout", (P.c(len(edges)),))]
            for e in o["edges"]:
                want.append(Str("\n"))
                for i, x in enumerate(e):
                    want += ([Str(" ")] if i else []) + [Sym("intout", (x,))]
            rs = G.rets(G.p.find("drv::out" + kind + sfx), None, [os, l], s)
            for s2, v in rs:
                got = c_output.flat(s2.ev, Sym("sink", ("o",)))
                if isinstance(v, tuple):
                    why = why or "throws"
                elif texts(got) != texts(want):
                    why = why or "prints %s instead of %s" % (got, c_output.merge(want))
            if not rs:
                why = why or "no result"
            res.append((why is None, nm, why or ""))
    return res, G.paths


def texts(xs):
    """output with constant numbers written out"""
    out = []
    for x in xs:
        if isinstance(x, Sym) and x.op == "intout" and isinstance(x.args[0], P) and x.args[0].const() is not None:
            x = Str(str(x.args[0].const()))
        if isinstance(x, P) and x.const() is not None:
            x = Str(str(x.const()))
        out.append(x)
    return c_output.merge(out)


@prop("G07", floor=1000)
def g07(c):
    c.rule("print", "a graph is printed as its numbers of vertices and edges and then, one per line, its edges in order: end points and data, separated by one blank, nothing after the last")
    c.rule("entropy", "no graph generator reaches a source of entropy, a clock, or a standard facility whose result is left to the implementation")
    c.rule("state", "the graph generators read no mutable variable but the engine")
    c.rule("engine", "the engine is only asked for its next word, and only seed() replaces it")
    c.rule("order", "no two operands evaluated in unspecified order both draw")
    c.rule("address", "no container orders or hashes its elements by their addresses")
    p = gprog()
    c_rand.determinism(c, p, [f for f in p.funcs.values() if f.get("repo") and (f["q"].startswith("drv::") or "GraphDetail" in f["q"])])
    address(c, p)
    T = []
    for D in (False, True):
        for data in ("long", "none"):
            for kind in "OS":
                for n in (0, 1, 2, 3):
                    for es in graphs(n, D):
                        if len(es) <= 3:
                            T.append((t_print, (D, data, 2, n, es, kind)))
                T.append((t_print, (D, data, "m", 3, [(0, 1, 10), (2, 1, 11)], kind)))
    spread(c, "print", T, lambda *a: str(a)[:160])


def address(c, p):
    """sets and maps of pointers need a comparator of their own"""
    n = 0
    for t in p.types:
        if t.get("k") != "rec" or not (t.get("q") or "").startswith("std::"):
            continue
        q = t["q"]
        if q in ("std::set", "std::map", "std::multiset", "std::multimap", "std::unordered_set", "std::unordered_map", "std::unordered_multiset", "std::priority_queue"):
            n += 1
            s = t.get("s", "")
            m = re.match(r"^std::\w+<(.*)>$", s)
            args = split_args(m.group(1)) if m else []
            if not args:
                continue
            ptr = args[0].strip().endswith("*")
            own = any("GraphDetail" in a or not a.strip().startswith("std::") for a in args[1:]) if "map" not in q else len(args) > 2 and not args[2].strip().startswith("std::")
            c.expect(not ptr or own, "address", s[:160], "elements are ordered by address")
    c.count("ordered containers", n)
    # objects are not compared by their addresses
    roots = [f for f in p.funcs.values() if f.get("repo") and (f["q"].startswith("drv::") or "GraphDetail" in f["q"])]
    for f in c_rand.closure(p, roots).values():
        if not f.get("repo"):
            continue
        for x in c_rand.nodes(f.get("body")):
            if x.get("k") == "bin" and x.get("op") in ("<", ">", "<=", ">=", "<=>"):
                ptr = [o for o in (x.get("l"), x.get("r")) if isinstance(o, dict) and isinstance(o.get("t"), int) and p.ty(o["t"]).get("k") == "ptr"]
                c.expect(not ptr, "address", f["q"], "line %s compares addresses" % x.get("ln"))


def split_args(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch == "," and depth == 0:
            out.append(cur)
            cur = ""
            continue
        depth += ch in "<(" 
        depth -= ch in ">)"
        cur += ch
    return out + [cur]


# ------------------------------------------------------------------ G01, G02: the validators' graphs
def vprog():
    if "v" not in _g:
        _g["v"] = load("graphval.cpp", [], "c++17", roots=ROOTS)
    return _g["v"]


class Val:
    def __init__(self, D):
        self.p = vprog()
        self.I = Interp(self.p, widen=True)
        self.I.keep = 4096
        self.I.sort_limit = 8
        self.I.split_sel = True
        self.I.oob = True
        self.D, self.paths = D, 0
        self.s = "UD"[D]

    def one(self, st, fn, *args):
        """(state, value) of a call with a single outcome"""
        rs = []
        for q in self.I.run(self.p.find("drv::" + fn), None, list(args), st):
            self.paths += 1
            for e in q.ev:
                if e[0] == "oob":
                    raise Bad("%s reads an element that does not exist (%s)" % (fn, e[1]))
            if q.kind == "throw":
                return q.st, ("throw", q.val)
            if q.kind != "return":
                raise Und("%s ends with %s" % (fn, q.kind))
            if unmodelled(q.ev):
                raise Und("%s calls %s" % (fn, unmodelled(q.ev)))
            rs.append((q.st, q.val))
        if len(rs) != 1:
            raise Und("%s has %d outcomes" % (fn, len(rs)))
        return rs[0]

    def new(self, b, n, st, short=False):
        st, v = self.one(st, "mk" + self.s + ("0" if short else ""), *([P.c(n)] if short else [b, b + P.c(n)]))
        l = Loc(("s", "graph", "v"))
        st.store[l.root] = self.I.rv(st, v)
        return st, l

    def call(self, st, fn, *args):
        """value of a query; the state may change"""
        st, v = self.one(st, fn + self.s, *args)
        if isinstance(v, tuple):
            raise Bad("%s throws" % fn)
        return st, v

    def num(self, st, fn, *args):
        st, v = self.call(st, fn, *args)
        v = self.I.rv(st, v)
        if not isinstance(v, P):
            raise Und("%s returns %s" % (fn, str(v)[:80]))
        if v.const() is None:
            t = st.facts.query(c_eq(v, ZERO, "i"))
            if t is True:
                v = ZERO
        return st, v

    def opt(self, st, fn, *args):
        st, v = self.call(st, fn, *args)
        v = self.I.rv(st, v)
        if not isinstance(v, Opt):
            raise Und("%s returns %s" % (fn, str(v)[:80]))
        h = v.has
        h = h.const() if isinstance(h, P) else h
        if h is None:
            raise Und("%s: %s" % (fn, str(v)[:80]))
        return st, (v.val if h else None)

    def list(self, st, v):
        v = self.I.rv(st, v)
        if isinstance(v, Sym) and v.op == "empty":
            return []
        if not isinstance(v, Vec) or v.n.const() is None:
            raise Und("list of unknown length")
        return [self.I.elem(st, v, P.c(i)) for i in range(v.n.const())]


def comps(n, E):
    """component of every vertex"""
    c = list(range(n))
    for u, v in E:
        if c[u] != c[v]:
            a, b = c[u], c[v]
            c = [a if x == b else x for x in c]
    return c


def want_und(n, seq):
    simple_ = {tuple(sorted(e)) for e in seq if e[0] != e[1]}
    c = comps(n, seq)
    k = len(set(c))
    forest = len(seq) == n - k
    col = [None] * n
    bip = all(u != v for u, v in seq)
    for r in range(n):
        if col[r] is None:
            col[r], work = 0, [r]
            while work:
                v = work.pop()
                for a, b in simple_:
                    for x, y in ((a, b), (b, a)):
                        if x == v:
                            if col[y] is None:
                                col[y] = 1 - col[v]
                                work.append(y)
                            elif col[y] == col[v]:
                                bip = False
    return dict(c=c, conn=k <= 1, forest=forest, tree=forest and k <= 1, bip=bip)


def look_val(V, st, l, b, n, seq):
    """raises Bad when a query of the validators' graph contradicts the edges added"""
    D = V.D
    F = st.facts

    def need(st, fn, want, *args):
        st, v = V.num(st, fn, *args)
        if (v - P.c(int(want))).const() != 0:
            q = st.facts.query(c_eq(v, P.c(int(want)), "i"))
            if q is None and v.const() is None:
                raise Und("%s: %s" % (fn, v))
            if q is not True:
                raise Bad("%s%s yields %s instead of %s" % (fn, tuple(str(a) for a in args[1:]), v, want))
        return st
    st = need(st, "nodes", n, l)
    st = need(st, "size", n, l)
    st = need(st, "edges", len(seq), l)
    key = (lambda e: e) if D else (lambda e: tuple(sorted(e)))
    have = {key(e) for e in seq}
    loops = {u for u, v in seq if u == v}
    cnt = {}
    for e in seq:
        cnt[key(e)] = cnt.get(key(e), 0) + 1
    multi = {e for e, k in cnt.items() if k > 1}
    st, x = V.opt(st, "loop", l)
    if (x is None) != (not loops):
        raise Bad("hasSelfloop %s" % ("finds none" if x is None else "finds %s" % x))
    if x is not None and rel(st.facts, V.I.rv(st, x), b, n) not in loops:
        raise Bad("hasSelfloop names %s" % x)
    st, x = V.opt(st, "multi", l)
    if (x is None) != (not multi):
        raise Bad("hasMultiedge %s" % ("finds none" if x is None else "finds %s" % x))
    if x is not None:
        x = V.I.rv(st, x)
        e = tuple(rel(st.facts, V.I.rv(st, x.get(k)), b, n) for k in ("first", "second"))
        if key(e) not in multi:
            raise Bad("hasMultiedge names %s" % (e,))
    for u in range(n):
        U = b + P.c(u)
        for fn, nb in (("nb", {w for a, w in (list(have) + ([] if D else [(y, x) for x, y in have])) if a == u}),) + ((("in", {a for a, w in have if w == u}),) if D else ()):
            st, v = V.call(st, fn, l, U)
            got = [rel(st.facts, V.I.rv(st, x), b, n) for x in V.list(st, v)]
            if sorted(got) != sorted(nb):
                raise Bad("%s of vertex %d: %s instead of %s" % ({"nb": "neighbours", "in": "incoming"}[fn], u, got, sorted(nb)))
            if got != sorted(got):
                raise Bad("%s of vertex %d are not ascending: %s" % ({"nb": "neighbours", "in": "incoming"}[fn], u, got))
            st = need(st, {"nb": "outdeg", "in": "indeg"}[fn] if D else "deg", len(nb), l, U)
        for w in range(n):
            W = b + P.c(w)
            st = need(st, "has", key((u, w)) in have, l, U, W)
            if D:
                st = need(st, "rev", (w, u) in have, l, U, W)
            else:
                st = need(st, "pair", comps(n, seq)[u] == comps(n, seq)[w], l, U, W)
    if not D:
        w = want_und(n, seq)
        for fn in ("conn", "forest", "tree", "bip"):
            st = need(st, fn, w[fn], l)
        return
    # order of a directed acyclic graph
    acyclic = not any(reach2(n, have, u) for u in range(n))
    st, x = V.opt(st, "dag", l)
    if (x is not None) != acyclic:
        raise Bad("isDAG %s" % ("refuses" if x is None else "accepts"))
    if x is not None:
        o = [rel(st.facts, V.I.rv(st, y), b, n) for y in V.list(st, x)]
        if sorted(o) != list(range(n)):
            raise Bad("isDAG returns the order %s" % o)
        if any(o.index(u) > o.index(v) for u, v in have):
            raise Bad("isDAG returns the order %s" % o)
    roots = [r for r in range(n) if len(seq) == n - 1 and all(sum(1 for e in seq if e[1] == v) == (0 if v == r else 1) for v in range(n)) and {r} | {y for y in range(n) if (r, y) in closure_pairs(n, have)} == set(range(n))]
    st, x = V.opt(st, "tree", l)
    if (x is not None) != bool(roots):
        raise Bad("isTree %s" % ("refuses" if x is None else "accepts with root %s" % x))
    if x is not None and rel(st.facts, V.I.rv(st, x), b, n) != roots[0]:
        raise Bad("isTree names root %s" % x)


def closure_pairs(n, arcs):
    out = set(arcs)
    while True:
        new = {(a, d) for a, b in out for c, d in out if b == c} - out
        if not new:
            return out
        out |= new


def reach2(n, arcs, u):
    return (u, u) in closure_pairs(n, arcs)


def t_val(D, spec, n, prefix, depth, every, short=False):
    """edge sequences that extend prefix by up to depth edges"""
    V = Val(D)
    res = []
    st = State()
    b = ZERO if short else base(st, spec)
    try:
        st, l = V.new(b, n, st, short)
    except Bad as e:
        return [(False, "constructor", str(e))], V.paths

    def go(st, seq, d):
        nm = "%s, %d vertices from %s: %s" % ("directed" if D else "undirected", n, spec, " ".join("%d-%d" % e for e in seq))
        if len(seq) >= len(prefix):
            try:
                look_val(V, st.fork(), l, b, n, seq)
                res.append((True, nm, ""))
            except Bad as e:
                res.append((False, nm, str(e)))
            except Und as e:
                res.append(("und", nm, str(e)))
        nxt = [prefix[len(seq)]] if len(seq) < len(prefix) else [(u, v) for u in range(n) for v in range(n)] if d else []
        if every and len(seq) >= len(prefix):
            nxt = [e for e in nxt if every(n, seq, e)]
        for u, v in nxt:
            s = st.fork()
            s, r = V.one(s, "add" + V.s, l, b + P.c(u), b + P.c(v))
            if isinstance(r, tuple):
                res.append((False, nm + " %d-%d" % (u, v), "addEdge throws"))
                continue
            go(s, seq + [(u, v)], d if len(seq) < len(prefix) else d - 1)
    go(st, [], depth)
    return res, V.paths


def val_tasks(D, thorough):
    T = [(t_val, (D, s, 0, [], 0, None)) for s in (0, 5, "m")]
    T += [(t_val, (D, 3, 1, [], 2, None)), (t_val, (D, "m", 1, [], 2, None)), (t_val, (D, "m", 2, [], 2, None)), (t_val, (D, "m", 3, [], 1, None))]
    T += [(t_val, (D, 0, 2, [], 2, None, True)), (t_val, (D, 0, 3, [(0, 1), (2, 1)], 1, None, True))]
    T += [(t_val, (D, 4, 2, [e], 3, None)) for e in product(range(2), repeat=2)]
    for e in product(range(3), repeat=2):
        for f in product(range(3), repeat=2):
            T.append((t_val, (D, -2, 3, [e, f], 1 if not thorough else 2, None)))
    # simple graphs on four vertices, larger chains, circuits and trees
    for i, es in enumerate(graphs(4, D)):
        if not D or (i % 16 == 0 if not thorough else i % 2 == 0):
            T.append((t_val, (D, 7, 4, [e[:2] for e in es], 0, None)))
    big = [[(0, 1), (1, 2), (2, 3), (3, 4)], [(4, 3), (3, 2), (2, 1), (1, 0)], [(0, 1), (1, 2), (2, 3), (3, 4), (4, 0)], [(2, 4), (0, 1), (3, 2), (1, 3)], [(0, 1), (0, 2), (0, 3), (0, 4)], [(1, 0), (2, 0), (3, 0), (4, 0)],
           [(0, 1), (2, 3), (1, 3), (4, 0)], [(0, 3), (1, 4), (3, 2), (4, 2)], [(0, 1), (1, 2), (2, 0), (3, 4)], [(0, 1), (2, 3), (0, 2), (4, 5), (4, 0)], [(0, 1), (2, 3), (4, 5), (0, 2), (0, 4), (1, 5)],
           [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 0)], [(0, 1), (2, 3), (4, 5), (6, 7), (1, 2), (5, 6), (3, 4)], [(0, 1), (2, 3), (4, 5), (6, 7), (1, 2), (5, 6), (3, 4), (0, 7)], [(0, 1), (2, 3), (4, 5), (1, 2), (5, 6), (3, 4), (0, 6)],
           [(3, 1), (1, 4), (1, 5), (5, 2), (3, 0)], [(5, 1), (1, 4), (1, 3), (3, 2), (5, 0)]]
    for es in big:
        n = 1 + max(max(e) for e in es)
        for x in (es, es[::-1], [(v, u) for u, v in es]):
            T.append((t_val, (D, 1, n, x, 0, None)))
    return T


@prop("G01", floor=500)
def g01(c):
    c.rule("undirected", "every query answers for exactly the edges added so far")
    spread(c, "undirected", val_tasks(False, c.thorough), lambda *a: str(a)[:200])


@prop("G02", floor=500)
def g02(c):
    c.rule("directed", "every query answers for exactly the edges added so far")
    spread(c, "directed", val_tasks(True, c.thorough), lambda *a: str(a)[:200])
