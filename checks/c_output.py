"""Formatted output: stream state, collections, separators, join."""
from check import prop
from front import *
from interp import *
from envs import *
import models
from c_args import ROOTS

_p = {}


def prog():
    if not _p:
        _p[0] = load("output.cpp", [], "c++17", roots=ROOTS)
    return _p[0]


NI = lambda i: P.a(Sym("int", (i,), I64))
NS = lambda i: Sym("str", (i,))


def vec(xs):
    return Vec(P.c(len(xs)), ("fill", ZERO), tuple((P.c(i), x) for i, x in enumerate(xs)))


def shown(I, st, x):
    """what inserting x into a std::ostream writes"""
    if isinstance(x, P):
        return [Sym("intout", (x,))]
    if isinstance(x, Str):
        return [x] if x.s else []
    return [x]


def flat(ev, sink):
    out = []
    for e in ev:
        if e[0] != "out":
            continue
        if e[1] != sink:
            out.append(("other sink", e[1]))
            continue
        for v in (e[2].args if isinstance(e[2], Sym) and e[2].op == "cat" else (e[2],)):
            out.append(v)
    return merge(out)


def merge(xs):
    out = []
    for v in xs:
        if isinstance(v, Str) and not v.s:
            continue
        if isinstance(v, Str) and out and isinstance(out[-1], Str):
            out[-1] = Str(out[-1].s + v.s)
        else:
            out.append(v)
    return out


def put(I, st, p, v, name):
    l = Loc(("s", name))
    st.store[l.root] = v
    return l


def pairrec(p, a, b):
    return Rec("pair", {"first": a, "second": b})


def tuprec(*xs):
    return Rec("tuple", {str(i): x for i, x in enumerate(xs)})


def interleave(groups, sep):
    out = []
    for i, g in enumerate(groups):
        if i:
            out += sep
        out += g
    return out


@prop("R22", 100)
def r22(c):
    """formatted output"""
    c.rule("state", "an OutputStream bound to a stream or file prints booleans as words and reals in fixed notation with six decimals; only the stream itself is configured; an unopenable file is an error")
    c.rule("plain", "a value that a standard stream can print is printed as that stream prints it, and manipulators reach the stream")
    c.rule("collection", "elements of containers, arrays, pairs and tuples are printed in order with one blank between neighbours and nothing before, after or instead")
    c.rule("join", "join prints the elements in order with the given separator (default blank) strictly between neighbours, and nothing but the elements with NOSEP; asString yields the same text")
    p = prog()
    I = Interp(p, widen=True)
    I.keep = 64
    state(c, I, p)
    SINK = Sym("sink", ("o",))
    SP = [Str(" ")]
    sepv = P.a(Sym("sep", (), CHAR))

    def check(rule, fn, mk, want, seps=None):
        """seps: None (no separator argument), 'sep' symbolic"""
        st = State()
        o = ostream_obj(I, st, p, "o")
        args = [o] + mk(st)
        if seps:
            args.append(sepv)
        n = 0
        for q in I.run(p.find("drv::" + fn), None, args, st):
            c.count("paths")
            n += 1
            if q.kind != "return":
                c.expect(None if q.kind == "cut" else False, rule, fn, "%s" % q.kind)
                continue
            got = flat(q.ev, SINK)
            if unmodelled(q.ev):
                c.undecided(rule, fn, "a call the library models do not know: %s" % (unmodelled(q.ev),))
                continue
            if seps:
                z = q.facts.query(c_eq(sepv, ZERO, "i"))
                if z is None:
                    # independent of the separator: only right when no separator is due
                    exp = merge(want([]))
                    exp2 = merge(want([models.chstr(I, q.st, sepv)]))
                    if exp != exp2:
                        c.bad(rule, fn, "prints %s for every separator" % (got,))
                        continue
                else:
                    exp = merge(want([] if z else [models.chstr(I, q.st, sepv)]))
            else:
                exp = merge(want(SP))
            c.expect(got == exp, rule, fn, "prints %s, specified %s" % (got, exp))
        if not n:
            c.undecided(rule, fn, "no path")

    def one(v, name="x"):
        return lambda st: [put(I, st, p, v, name)]
    # plain values
    check("plain", "pInt", lambda st: [NI(0)], lambda s: [Sym("intout", (NI(0),))])
    check("plain", "pStr", one(NS(0)), lambda s: [NS(0)])
    check("plain", "pView", lambda st: [NS(0)], lambda s: [NS(0)])
    b, r, ch = P.a(Sym("b", (), BOOL)), P.a(Sym("r", (), F80)), P.a(Sym("ch", (), CHAR))
    check("plain", "pBool", lambda st: [b], lambda s: [Sym("boolout", (b,))])
    check("plain", "pReal", lambda st: [r], lambda s: [Sym("floatout", (r,))])
    check("plain", "pChar", lambda st: [ch], lambda s: [models.chstr(I, State(), ch)])
    check("plain", "pLit", lambda st: [], lambda s: [Str("lit")])
    check("plain", "pEndl", lambda st: [], lambda s: [Str("\n")])
    for fn in ("pEndl", "pFlush"):
        st = State()
        o = ostream_obj(I, st, p, "o")
        for q in I.run(p.find("drv::" + fn), None, [o], st):
            c.expect([e for e in q.ev if e[0] == "flush"] == [("flush", SINK)], "plain", fn, "the stream is not flushed exactly once")
    N = 5 if c.thorough else 4
    for n in range(N):
        xs, ss = [NI(i) for i in range(n)], [NS(i) for i in range(n)]
        gi, gs = [[Sym("intout", (x,))] for x in xs], [[x] for x in ss]
        for fn in ("cVecInt", "cList", "cDeque"):
            check("collection", fn, one(vec(xs)), lambda s: interleave(gi, s))
        check("collection", "cVecStr", one(vec(ss)), lambda s: interleave(gs, s))
        check("collection", "cVecPair", one(vec([pairrec(p, x, y) for x, y in zip(xs, ss)])), lambda s: interleave([a + s + b for a, b in zip(gi, gs)], s))
        for fn in ("jVec", "jVecMv", "jIter"):
            check("join", fn, one(vec(xs)), lambda s: interleave(gi, s), "sep")
        for fn in ("jVecD", "jIterD"):
            check("join", fn, one(vec(xs)), lambda s: interleave(gi, s))
        check("join", "jVecStr", one(vec(ss)), lambda s: interleave(gs, s), "sep")
        if n:
            check("join", "jIterTail", one(vec(xs)), lambda s: interleave(gi[1:], s), "sep")
        w = "abcde"[:n]
        check("join", "jStr", one(Str(w)), lambda s: interleave([[Str(x)] for x in w], s), "sep")
        # nested: rows of 0, 1, 2 elements
        rows = [[NI((i, j)) for j in range((i + 1) % 3)] for i in range(n)]
        gr = [[[Sym("intout", (x,))] for x in row] for row in rows]
        check("collection", "cNest", one(vec([vec(row) for row in rows])), lambda s: interleave([interleave(g, s) for g in gr], s))
        check("join", "jNest", one(vec([vec(row) for row in rows])), lambda s: interleave([interleave(g, SP) for g in gr], s), "sep")
        for fn in ("sVec", "sVecOp"):
            st = State()
            x = put(I, st, p, vec(xs), "x")
            for q in I.run(p.find("drv::" + fn), None, [x, sepv], st):
                c.count("paths")
                if q.kind != "return":
                    c.undecided("join", fn, str(q.kind))
                    continue
                z = q.facts.query(c_eq(sepv, ZERO, "i"))
                v = q.val
                got = merge(list(v.args) if isinstance(v, Sym) and v.op == "cat" else [v])
                if z is None and n > 1:
                    c.bad("join", fn, "yields %s for every separator" % (got,))
                    continue
                exp = merge(interleave(gi, [] if z else [models.chstr(I, q.st, sepv)]))
                c.expect(got == exp, "join", fn, "yields %s, specified %s" % (got, exp))
    three = [NI(0), NI(1), NI(2)]
    g3 = [[Sym("intout", (x,))] for x in three]
    for fn in ("cArr", "cCarr"):
        check("collection", fn, one(vec(three)), lambda s: interleave(g3, s))
    for fn in ("jArr", "jCarr"):
        check("join", fn, one(vec(three)), lambda s: interleave(g3, s), "sep")
    check("join", "jArrD", one(vec(three)), lambda s: interleave(g3, s))
    check("join", "jLit", lambda st: [], lambda s: interleave([[Str(x)] for x in "abc"], s), "sep")
    check("join", "jLit0", lambda st: [], lambda s: [], "sep")
    pr = pairrec(p, NI(0), NS(0))
    gp = [[Sym("intout", (NI(0),))], [NS(0)]]
    check("collection", "cPair", one(pr), lambda s: interleave(gp, s))
    check("join", "jPair", one(pr), lambda s: interleave(gp, s), "sep")
    t3 = tuprec(NI(0), NS(0), NI(1))
    gt = gp + [[Sym("intout", (NI(1),))]]
    check("collection", "cTup1", one(tuprec(NI(0))), lambda s: gp[0])
    check("collection", "cTup3", one(t3), lambda s: interleave(gt, s))
    check("collection", "cTupPair", one(tuprec(NI(0), pairrec(p, NI(1), NI(2)), NI(3))), lambda s: interleave([[Sym("intout", (NI(i),))] for i in range(4)], s))
    for fn in ("jTup", "jTupMv"):
        check("join", fn, one(t3), lambda s: interleave(gt, s), "sep")
    check("join", "jTupD", one(t3), lambda s: interleave(gt, s))
    l3 = lambda st: [put(I, st, p, NI(0), "a"), put(I, st, p, NS(0), "b"), put(I, st, p, NI(1), "c")]
    check("join", "jList", l3, lambda s: interleave(gt, s), "sep")
    check("join", "jListD", l3, lambda s: interleave(gt, s))


def state(c, I, p):
    def bound(fn, args, st, k, sinkof):
        r = Loc(("s", "target"))
        st.store[r.root] = st.store[ostream_obj(I, st, p, "old").root]
        for q in I.run(p.find("drv::" + fn), None, [r] + args, st):
            c.count("paths")
            opens = [e for e in q.ev if e[0] == "open"]
            if q.kind == "throw":
                c.expect(bool(opens) and q.val[1] == "std::runtime_error" and not [e for e in q.ev if e[0] == "out"], "state", k, "fails: %s" % (q.val,))
                goods = [q.facts.query(P.a(a)) for a in q.facts.at if a.op == "good"]
                c.expect(False in goods, "state", k, "fails although the file was opened")
                continue
            if q.kind != "return":
                c.undecided("state", k, str(q.kind))
                continue
            goods = [q.facts.query(P.a(a)) for a in q.facts.at if a.op == "good"]
            if opens:
                c.expect(True in goods, "state", k, "succeeds without asking whether the file was opened")
            man = {}
            sinks = set()
            for e in q.ev:
                if e[0] == "manip":
                    man[{"noboolalpha": "boolalpha", "scientific": "float", "fixed": "float", "hexfloat": "float", "defaultfloat": "float"}.get(e[2], e[2])] = e[2:]
                    sinks.add(e[1])
            want = {"boolalpha": ("boolalpha",), "float": ("fixed",), "setprecision": ("setprecision", P.c(6))}
            c.expect(man == want, "state", k, "formats with %s" % (sorted(map(str, man.values())),))
            # the stream configured is the one written to
            y = q.st.fork()
            y.ev.clear()
            for z in I.run(p.find("drv::pView"), None, [r, Sym("text")], y):
                o = [e for e in z.ev if e[0] == "out"]
                c.expect(z.kind == "return" and len(o) == 1 and {o[0][1]} == sinks and sinkof(o[0][1]), "state", k, "writes to %s, configured %s" % (o, sinks))
    st = State()
    os = Loc(("s", "sink", "new"))
    st.store[os.root] = Sym("sink", ("new",))
    bound("bind", [os], st, "OutputStream(std::ostream&)", lambda s: s == Sym("sink", ("new",)))
    M = P.a(Sym("mode", (), I32))
    bound("bindFile", [Sym("path"), M], State(), "OutputStream(path, mode)", lambda s: any(x.args[:2] == (Sym("path"), M) for x in syms(s) if x.op == "ofstream"))
    # default: goes nowhere
    st = State()
    r = Loc(("s", "target"))
    st.store[r.root] = st.store[ostream_obj(I, st, p, "old").root]
    for q in I.run(p.find("drv::bindNone"), None, [r], st):
        for z in I.run(p.find("drv::pView"), None, [r, Sym("text")], q.st):
            o = [e for e in z.ev if e[0] == "out"]
            okk = z.kind == "return" and all("NullStream" in str(e[1]) or "nullStream" in str(e[1]) for e in o)
            c.expect(okk, "state", "OutputStream()", "an unbound stream writes to %s" % (o,))


BENIGN = set()   # library functions whose results the specifications name by the same opaque term


def unmodelled(ev):
    for e in ev:
        if e[0] == "call" or e[0] == "opaque" and e[1] not in BENIGN:
            return e[1]
        if e[0] == "loop":
            for t in e[2]:
                r = unmodelled(t)
                if r:
                    return r
    return None


def syms(v):
    if isinstance(v, Sym):
        return [v] + [y for x in v.args for y in syms(x)]
    if isinstance(v, tuple):
        return [y for x in v for y in syms(x)]
    return []
