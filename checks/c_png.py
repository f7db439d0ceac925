"""The PNG visualizer: drawing, colours, file format."""
from itertools import product
from check import prop
from front import *
from interp import *
from front import load
from c_args import ROOTS
import models
import bits

_p = {}
U8 = NumTy("i", 8, False)
MODES = ("", "_blend", "_add", "_sub")


def pprog():
    if not _p:
        _p[0] = load("png.cpp", [], "c++17", roots=ROOTS)
    return _p[0]


class Img:
    """an image that is built and observed through the public operations only"""

    def __init__(self, c, prog=None, names="rgba"):
        self.c, self.p, self.names = c, prog or pprog(), names
        self.I = Interp(self.p, widen=True)
        self.I.keep = 4096
        self.I.oob = "stop"
        self.I.rounds = 600
        self.cid = self.p.rec("Color")
        self.pid = self.p.rec("Point")
        self.cid = self.cid["id"] if isinstance(self.cid, dict) else self.cid
        self.pid = self.pid["id"] if isinstance(self.pid, dict) else self.pid
        self.img = Loc(("s", "img"))
        self.kind = "PNG"
        self.memo = {}
        self.k = 0

    def col(self, *ch):
        return Rec(self.cid, {k: x if isinstance(x, P) else P.c(x) for k, x in zip(self.names, ch)})

    def sym(self, *ix):
        return Rec(self.cid, {k: P.a(Sym("px", ix + (k,), U8)) for k in self.names})

    def pt(self, x, y):
        return Rec(self.pid, {"x": P.c(x), "y": P.c(y)})

    def run(self, fn, args, st):
        st = st.fork()
        xs = []
        for i, a in enumerate(args):
            f = self.p.find("drv::" + fn)
            if isinstance(a, Rec) and self.p.isref(f["ps"][i]["t"]) if hasattr(self.p, "isref") else isinstance(a, Rec) and self.p.ty(f["ps"][i]["t"])["k"] == "ref":
                l = Loc(("s", "arg%d" % i))
                st.store[l.root] = a
                a = l
            xs.append(a)
        self.I.nstates = 0
        try:
            return self.I.run(self.p.find("drv::" + fn), None, xs, st)
        except OutOfRange as e:
            if "inside the image" not in self.c.rules:
                self.c.rule("inside the image", "no operation leaves an array, divides by zero or fails to end")
            self.c.bad("inside the image", fn, str(e))
            return []

    def one(self, fn, args, st, where):
        """the only path of an operation on constant shapes"""
        qs = self.run(fn, args, st)
        if len(qs) != 1 or qs[0].kind != "return":
            if qs and all(any(e[0] == "ub" for e in q.ev) for q in qs):
                self.events(qs[0], fn, where)
            return None, qs
        self.events(qs[0], fn, where)
        return qs[0], qs

    def events(self, q, fn, where):
        for e in q.ev:
            if e[0] in ("ub", "oob"):
                if "inside the image" not in self.c.rules:
                    self.c.rule("inside the image", "no operation leaves an array, divides by zero or fails to end")
                self.c.bad("inside the image", fn + where, str(e[1])[:200])

    def blank(self, w, h, fill):
        st = State()
        q, _ = self.one("anon", [], st, "")
        if q is None:
            raise AnalysisBroken("the default constructor of PNG has no single path")
        st = q.st
        st.ev = []
        st.store[self.img.root] = q.val
        q, _ = self.one("clear", [self.img, P.c(w), P.c(h), fill], st, "")
        if q is None:
            raise AnalysisBroken("clear has no single path")
        return q.st

    def make(self, rows):
        """rows[y][x] -> state with the image"""
        h, w = len(rows), len(rows[0])
        cnt = {}
        for r in rows:
            for v in r:
                cnt[v] = cnt.get(v, 0) + 1
        base = max(cnt, key=lambda v: cnt[v])
        st = self.blank(w, h, base)
        for y in range(h):
            for x in range(w):
                if rows[y][x] != base:
                    q, _ = self.one("put", [self.img, P.c(x), P.c(y), rows[y][x]], st, "")
                    if q is None:
                        raise AnalysisBroken("writing a pixel has no single path")
                    st = q.st
        st.ev = []
        return st

    def pixels(self, st, w, h, img=None):
        out = []
        for y in range(h):
            r = []
            for x in range(w):
                q, _ = self.one("pick", [img or self.img, P.c(x), P.c(y)], st, "")
                if q is None:
                    return None
                v = q.val
                r.append(self.I.rv(q.st, v) if isinstance(v, Loc) else v)
            out.append(r)
        return out

    def combine(self, mode, lower, upper):
        """the colour the mode yields for two constant colours, by the public colour operations"""
        if mode == "":
            return upper
        k = (mode, tuple(lower.fields.items()), tuple(upper.fields.items()))
        if k not in self.memo:
            q, _ = self.one({"_blend": "over", "_add": "add", "_sub": "sub"}[mode], [lower, upper], State(), "")
            self.memo[k] = None if q is None else q.val
        return self.memo[k]


def same(a, b):
    """True/False/None: equal colours"""
    if a is None or b is None or not isinstance(a, Rec) or not isinstance(b, Rec):
        return None
    r = True
    for k in "rgba":
        x, y = a.get(k), b.get(k)
        if x == y:
            continue
        if isinstance(x, P) and isinstance(y, P):
            d = x - y
            if d.const() is not None:
                return False
            xs, ys = x.atom(), y.atom()
            if (xs is not None and xs.op == "px" or x.const() is not None) and (ys is not None and ys.op == "px" or y.const() is not None):
                return False        # different inputs
        r = None
    return r


def shown(v):
    return str(tuple(v.fields.values())) if isinstance(v, Rec) else str(v)


def compare(M, c, rule, fn, where, st, exp, w, h):
    got = M.pixels(st, w, h)
    if got is None:
        return c.undecided(rule, fn, where)
    res, msg = True, ""
    for y in range(h):
        for x in range(w):
            s = same(got[y][x], exp[y][x])
            if s is False:
                return c.expect(False, rule, fn, "%s: pixel (%d, %d) is %s instead of %s" % (where, x, y, shown(got[y][x]), shown(exp[y][x])))
            if s is None:
                res = None
    return c.expect(res, rule, fn, where)


def palette(M, w, h, seed):
    """pairwise different constant colours, none of whose parts saturates by a small change"""
    return [[M.col(60 + (7 * x + 13 * y + seed) % 90, 70 + (11 * x + 5 * y) % 80, 50 + (3 * x + 17 * y) % 100, 80 + (5 * x + 3 * y) % 60) for x in range(w)] for y in range(h)]


def dims(M, c, st, w, h, where):
    for fn, n in (("width", w), ("height", h)):
        q, _ = M.one(fn, [M.img], st, where)
        v = q and q.val
        c.expect(v.const() == n if isinstance(v, P) and v.const() is not None else None, "size", fn, "%s: %s instead of %d" % (where, v, n))


@prop("P01", floor=2000)
def p01(c):
    M = Img(c)
    R = "inside the image"
    c.rule(R, "drawing inside the image never touches a pixel outside of it")
    c.rule("size", "width and height are those of the last clear")
    c.rule("pixels", "clear fills every pixel, a pixel that was written reads back, and no other pixel changes")
    c.rule("rectangle", "exactly the pixels of the closed rectangle are combined, each once: its rim with the border colour, the others with the fill colour")
    c.rule("flood", "exactly the 4-connected pixels of the colour of the start are combined, each once")
    c.rule("line", "the pixels combined by a line form a shortest 8-connected chain from one end to the other that stays within half a pixel of the segment")
    # ---------------------------------------------------------------- pixels
    f0 = M.sym("fill")
    for w, h in ((1, 1), (2, 3), (3, 2), (5, 1), (1, 4)):
        where = "%dx%d" % (w, h)
        st = M.blank(w, h, f0)
        dims(M, c, st, w, h, where)
        exp = [[f0] * w for _ in range(h)]
        compare(M, c, "pixels", "clear", where, st, exp, w, h)
        for y, x in product(range(h), range(w)):
            v = M.sym(x, y)
            q, qs = M.one("put", [M.img, P.c(x), P.c(y), v], st, where)
            if q is None:
                c.undecided("pixels", "operator()", where)
                continue
            st = q.st
            exp[y][x] = v
            compare(M, c, "pixels", "operator()", "%s after writing (%d, %d)" % (where, x, y), st, exp, w, h)
        dims(M, c, st, w, h, where)
        for w2, h2 in ((2, 2), (3, 1), (1, 3)):
            q, _ = M.one("wipe", [M.img, P.c(w2), P.c(h2)], st, where)
            if q is None:
                c.undecided("pixels", "clear", where)
                continue
            dims(M, c, q.st, w2, h2, where + " cleared to %dx%d" % (w2, h2))
            compare(M, c, "pixels", "clear", where + " cleared to %dx%d" % (w2, h2), q.st, [[M.col(0, 0, 0, 0)] * w2 for _ in range(h2)], w2, h2)
    # copies are independent, moves keep the picture
    st = M.make([[M.sym(x, y) for x in range(2)] for y in range(2)])
    other = Loc(("s", "other"))
    q, _ = M.one("anon", [], st, "")
    s2 = q.st
    s2.store[other.root] = q.val
    for fn in ("copied", "moved"):
        q, _ = M.one(fn, [other, M.img], s2, "")
        if q is None:
            c.undecided("pixels", fn, "")
            continue
        got = M.pixels(q.st, 2, 2, other)
        for y, x in product(range(2), range(2)):
            c.expect(got and same(got[y][x], M.sym(x, y)), "pixels", fn, "pixel (%d, %d) of the image assigned to" % (x, y))
        if fn == "copied":
            z, _ = M.one("put", [other, P.c(0), P.c(0), M.col(1, 2, 3, 4)], q.st, "")
            if z is not None:
                compare(M, c, "pixels", fn, "the original after a change of the copy", z.st, [[M.sym(x, y) for x in range(2)] for y in range(2)], 2, 2)
    # ---------------------------------------------------------------- rectangles
    sizes = [(4, 3), (3, 4)] if not c.thorough else [(4, 3), (3, 4), (5, 5), (6, 2)]
    for w, h in sizes:
        srows = [[M.sym(x, y) for x in range(w)] for y in range(h)]
        crows = palette(M, w, h, 3)
        sst, cst = M.make(srows), M.make(crows)
        bs, fs = M.sym("border"), M.sym("inner")
        bc, fc = M.col(9, 17, 5, 90), M.col(4, 3, 21, 130)
        for ax, ay, bx, by in product(range(w), range(h), range(w), range(h)):
            for mode in MODES:
                if mode and (ax + 2 * ay + 3 * bx + by) % 3 != MODES.index(mode) % 3 and not c.thorough:
                    continue
                rows, st, b, f = (srows, sst, bs, fs) if not mode else (crows, cst, bc, fc)
                for fn, args in (("rect", [b, f]), ("box", [f])):
                    where = "(%d, %d), (%d, %d) on %dx%d" % (ax, ay, bx, by, w, h)
                    q, qs = M.one(fn + mode, [M.img, M.pt(ax, ay), M.pt(bx, by)] + args, st, " " + where)
                    if q is None:
                        c.undecided("rectangle", fn + mode, where + " has %d paths" % len(qs))
                        continue
                    c.count("rectangles")
                    exp = [list(r) for r in rows]
                    for x, y in product(range(min(ax, bx), max(ax, bx) + 1), range(min(ay, by), max(ay, by) + 1)):
                        rim = x in (ax, bx) or y in (ay, by)
                        exp[y][x] = M.combine(mode, rows[y][x], args[0] if rim else f)
                    compare(M, c, "rectangle", fn + mode, where, q.st, exp, w, h)
    # ---------------------------------------------------------------- flood fill
    flood(M, c)
    # ---------------------------------------------------------------- lines
    lines(M, c)


def region(rows, x, y):
    h, w = len(rows), len(rows[0])
    seen, todo = {(x, y)}, [(x, y)]
    while todo:
        a, b = todo.pop()
        for u, v in ((a + 1, b), (a - 1, b), (a, b + 1), (a, b - 1)):
            if 0 <= u < w and 0 <= v < h and (u, v) not in seen and rows[v][u] == rows[y][x]:
                seen.add((u, v))
                todo.append((u, v))
    return seen


def flood(M, c):
    base = [40, 50, 60, 70]

    def diff(k, d):
        x = list(base)
        x[k] += d
        return M.col(*x)
    A = M.col(*base)
    big = [".....", "###.#", "....#", ".####", "....."], ["..#..", "#.#.#", "..#..", ".###.", "....."], ["......", ".####.", ".#..#.", ".#.##.", "......"], ["#.", ".#", "#.", ".#"]
    shapes = []
    for n in range(512):
        shapes.append(["".join(".#"[n >> (3 * y + x) & 1] for x in range(3)) for y in range(3)])
    for i, s in enumerate(list(big) + shapes):
        if sum(o[2] == "bad" for o in c.obs) > 5:
            return
        w, h = len(s[0]), len(s)
        B = diff(i % 4, 1 + i % 3)      # differs from A in a single part
        rows = [[A if ch == "." else B for ch in r] for r in s]
        st = M.make(rows)
        starts = [(x, y) for x in range(w) for y in range(h)]
        if i >= len(big) and not c.thorough:
            starts = [starts[(i * 5) % 9], starts[(i * 7 + 4) % 9]]
        for j, (x, y) in enumerate(starts):
            mode = MODES[(i + j) % 4]
            old, oth = rows[y][x], (B if rows[y][x] is A else A)
            fills = [M.col(5, 0, 3, 99)] if mode != "" else [M.sym("fresh", i)] if i < len(big) else [oth]
            if (i + j) % 5 == 0:
                fills.append(old if mode == "" else M.col(0, 0, 0, 0))
            if (i + j) % 7 == 0:
                fills.append(M.col(0, 0, 0, 255))
            for f in fills:
                where = "start (%d, %d), fill %s on %s" % (x, y, shown(f), "/".join(s))
                qs = M.run("flood" + mode, [M.img, M.pt(x, y), f], st)
                c.count("flood fills")
                for q in qs:
                    M.events(q, "flood" + mode, " " + where)
                    if q.kind != "return":
                        c.undecided("flood", "flood" + mode, where + " ends with " + q.kind)
                        continue
                    if len(qs) > 1 and agree(q, f, old):
                        f2, new = old, old
                    else:
                        f2, new = f, M.combine(mode, old, f)
                    exp = [list(r) for r in rows]
                    for u, v in region(rows, x, y):
                        exp[v][u] = new
                    if len(qs) > 1 and f2 is old:
                        # the fill colour equals the old one on this path: nothing may change
                        got = M.pixels(q.st, w, h)
                        ok = got and all(eqon(q, got[v][u], exp[v][u]) for v in range(h) for u in range(w))
                        c.expect(True if ok else None, "flood", "flood" + mode, where)
                        continue
                    compare(M, c, "flood", "flood" + mode, where, q.st, exp, w, h)


def agree(q, f, old):
    """does the path assume that the colours are equal"""
    return all(q.facts.entails(c_eq(f.get(k), old.get(k), "i")) for k in "rgba")


def eqon(q, a, b):
    return all(q.facts.entails(c_eq(a.get(k), b.get(k), "i")) if a.get(k) != b.get(k) else True for k in "rgba")


def lines(M, c):
    jobs = []
    n = 5 if not c.thorough else 7
    jobs.append((n, n, [(a, b) for a in product(range(n), repeat=2) for b in product(range(n), repeat=2)]))
    m = 11 if not c.thorough else 17
    jobs.append((m, m, [((m // 2, m // 2), b) for b in product(range(m), repeat=2) if max(abs(b[0] - m // 2), abs(b[1] - m // 2)) > 2]))
    jobs.append((9, 2, [((0, 0), (8, 1)), ((8, 1), (0, 0)), ((0, 1), (8, 0)), ((8, 0), (0, 1)), ((3, 1), (3, 0)), ((7, 0), (1, 0))]))
    jobs.append((1, 7, [((0, 0), (0, 6)), ((0, 6), (0, 0)), ((0, 3), (0, 3))]))
    for w, h, segs in jobs:
        srows = [[M.sym("at", x, y) for x in range(w)] for y in range(h)] if w <= 5 else None
        bg = M.sym("bg")
        st0 = M.make(srows) if srows else M.blank(w, h, bg)
        crows = [[M.col(40, 50, 60, 70)] * w for _ in range(h)]
        st1 = M.make(crows)
        for i, ((ax, ay), (bx, by)) in enumerate(segs):
            mode = "" if i % 4 == 0 or w > 5 else MODES[1 + i % 3]
            st = st1 if mode else st0
            f = M.col(3, 4, 5, 60) if mode else M.sym("pen")
            where = "(%d, %d) to (%d, %d)" % (ax, ay, bx, by)
            fn = "line" + mode
            q, qs = M.one(fn, [M.img, M.pt(ax, ay), M.pt(bx, by), f], st, " " + where)
            if q is None:
                c.undecided("line", fn, where + " has %d paths" % len(qs))
                continue
            c.count("lines")
            got = M.pixels(q.st, w, h)
            if got is None:
                c.undecided("line", fn, where)
                continue
            hit, err = [], None
            for y, x in product(range(h), range(w)):
                old = crows[y][x] if mode else srows[y][x] if srows else bg
                if same(got[y][x], old) is True:
                    continue
                if same(got[y][x], M.combine(mode, old, f)) is True:
                    hit.append((x, y))
                else:
                    s = same(got[y][x], M.combine(mode, old, f))
                    err = "pixel (%d, %d) is %s, which is not one application of the colour" % (x, y, shown(got[y][x])) if s is False else ""
                    break
            if err is None:
                err = chain(hit, (ax, ay), (bx, by))
            c.expect(None if err == "" else err is None, "line", fn, where + ": " + (err or ""))


def chain(hit, a, b):
    """None if the set of pixels is a discrete segment from a to b"""
    dx, dy = b[0] - a[0], b[1] - a[1]
    n = max(abs(dx), abs(dy))
    if a not in hit or b not in hit:
        return "an end is not drawn"
    if len(hit) != n + 1:
        return "%d pixels instead of %d" % (len(hit), n + 1)
    k = 0 if abs(dx) >= abs(dy) else 1
    by = {}
    for q in hit:
        if q[k] in by:
            return "two pixels in one step of the long direction"
        by[q[k]] = q
    s = 1 if (dx, dy)[k] > 0 else -1
    last = None
    for i in range(n + 1):
        q = by.get(a[k] + s * i)
        if q is None:
            return "a gap at %d" % (a[k] + s * i)
        if last is not None and abs(q[1 - k] - last[1 - k]) > 1:
            return "not connected between %s and %s" % (last, q)
        last = q
        # distance to the ideal line in the short direction, times 2n
        if n and abs(2 * (q[1 - k] - a[1 - k]) * n - 2 * (dx, dy)[1 - k] * i) > n:
            return "%s is more than half a pixel off" % (q,)
    return None


# ---------------------------------------------------------------------- colours
F1 = lambda v, nm: P.a(Sym(nm, (v,), F80))
NAMES = ["BLACK", "DARKGRAY", "GRAY", "LIGHTGRAY", "WHITE", "TRANSPARENT", "RED", "GREEN", "BLUE", "YELLOW", "MAGENTA", "CYAN"]
VALUES = [0x000000FF, 0x404040FF, 0x808080FF, 0xC0C0C0FF, 0xFFFFFFFF, 0, 0xFF0000FF, 0x00FF00FF, 0x0000FFFF, 0xFFFF00FF, 0xFF00FFFF, 0x00FFFFFF]


def bitcolour(c, rule, fn, q, exp):
    """the parts of the colour returned, as functions of the input bits"""
    v = q.val if isinstance(q.val, Rec) else None
    for k, e in zip("rgba", exp):
        b = bits.bits_of(v.get(k), 8) if v is not None else None
        c.expect(bits.same(b, e), rule, fn, "part %s is not the specified one" % k)


def within(F, v, x, tol):
    """is v within tol of x clamped to [0, 255] on this path"""
    d2 = (v - x).scale(2) if not isinstance(tol, int) or True else v - x
    if F.entails(c_le(d2, P.c(2 * tol), "f")) and F.entails(c_le(-d2, P.c(2 * tol), "f")):
        return True
    if v.const() == 255 and F.entails(c_le(P.c(255 - tol), x, "f")):
        return True
    if v.const() == 0 and F.entails(c_le(x, P.c(tol), "f")):
        return True
    return None


@prop("P02", floor=150)
def p02(c):
    M = Img(c)
    p = M.p
    colour_rules(c, 4)
    B = bits.BitInterp(p, widen=False)
    B.keep = 4096
    M.I = B
    sym8 = lambda nm: bits.lower(bits.word(nm, 8), U8)
    W = bits.word("rgb", 32)
    U32 = NumTy("i", 32, False)
    x32 = bits.lower(W, U32)
    byte = lambda s: W.map(lambda v: (v >> s) & 0xFF)
    ch = {k: bits.word(("ch", k), 8) for k in "rgba"}
    C = [bits.lower(ch[k], U8) for k in "rgba"]
    ctor(M, c, "c0", [], [bits.Bv(0)] * 3 + [bits.Bv(255)])
    ctor(M, c, "c1", [x32], [byte(16), byte(8), byte(0), bits.Bv(255)])
    ctor(M, c, "c2", [x32, C[3]], [byte(16), byte(8), byte(0), ch["a"]])
    ctor(M, c, "c3", C[:3], [ch["r"], ch["g"], ch["b"], bits.Bv(255)])
    ctor(M, c, "c4", C, [ch[k] for k in "rgba"])
    literal(M, c)
    colour = M.col(*C)
    parts(M, c, colour, ch, "rgba")
    M.I = I = Interp(p, widen=True)
    I.keep = 4096
    compare_rules(M, c, "rgba")
    arithmetic(M, c, "rgba")
    # ---- alpha blending
    lo, up = M.sym("lower"), M.sym("upper")
    qs = M.run("over", [lo, up], State())
    la, ua = lo.get("a"), up.get("a")
    allform = True
    seen = 0
    for q in qs:
        c.count("paths")
        for e in q.ev:
            if e[0] == "ub":
                c.bad("over", "blend", str(e[1])[:200])
        F = q.facts
        v = q.val if isinstance(q.val, Rec) else None
        if v is None or q.kind != "return":
            allform = False
            continue
        seen += 1
        opaque, none = F.query(c_eq(ua, P.c(255), "i")), F.query(c_eq(ua, ZERO, "i"))
        for k in "rgba":
            g = v.get(k)
            if opaque is True:
                c.expect(True if g == up.get(k) or F.entails(c_eq(g, up.get(k), "i")) else None, "over", "blend", "an opaque colour does not cover")
                continue
            if none is True:
                c.expect(True if g == lo.get(k) or F.entails(c_eq(g, lo.get(k), "i")) else None, "over", "blend", "an invisible colour changes the lower one")
                continue
            if F.query(c_eq(up.get("a"), ZERO, "i")) is False and k == "a":
                # alpha: at least that of the upper colour, at most opaque
                c.expect(True if F.entails(c_le(ua, g, "i")) and F.entails(c_le(g, P.c(255), "i")) else None, "over", "blend", "alpha below that of the upper colour")
    constants(M, c)
    palette_rule(M, c)


def colour_rules(c, n):
    c.rule("constructors", "a colour consists of the bytes it is constructed from: bits 16-23, 8-15 and 0-7 of a number, or the parts themselves; without alpha it is opaque")
    c.rule("parts", "the index operator reads and writes exactly the part with that number and throws for every other one")
    c.rule("equality", "two colours are equal exactly if all parts are, unequal otherwise; the same for points")
    c.rule("arithmetic", "sum and difference are taken per part and clamped to 0..255; the compound forms assign exactly that")
    c.rule("scaling", "a multiple is the clamped product rounded to nearest, per part, from either side; interpolation yields its ends exactly and is within one of the exact value in between")
    c.rule("palette", "the named colours have their documented values")
    if n == 4:
        c.rule("over", "blending divides by no zero; an opaque colour covers, an invisible one changes nothing, in between every part is the mean weighted by alpha (up to rounding)")


def ctor(M, c, fn, args, exp):
    q, qs = M.one(fn, args, State(), "")
    if q is None:
        return c.undecided("constructors", fn, "%d paths" % len(qs))
    bitcolour(c, "constructors", fn, q, exp)


def literal(M, c):
    v = bits.word("lit", 64)
    q, qs = M.one("lit", [bits.lower(v, NumTy("i", 64, False))], State(), "")
    b = bits.bits_of(q.val, 8) if q is not None and isinstance(q.val, P) else None
    c.expect(bits.same(b, v.map(lambda x: x & 255)), "constructors", "operator\"\"_c", "is not the value modulo 256")


def parts(M, c, colour, ch, names):
    for i in range(6):
        inside = i < len(names)
        for fn, args in (("get", [colour, P.c(i)]), ("part", [colour.get(k) for k in names] + [P.c(i)])):
            qs = M.run(fn, args, State())
            if inside:
                ok = len(qs) == 1 and qs[0].kind == "return"
                v = M.I.rv(qs[0].st, qs[0].val) if ok else None
                b = bits.bits_of(v, 8) if isinstance(v, P) else None
                c.expect(bits.same(b, ch[names[i]]) if ok else False if qs and all(q.kind == "throw" for q in qs) else None, "parts", fn + str(i), "does not read part %s" % names[i])
            else:
                c.expect(all(q.kind == "throw" for q in qs) if qs else None, "parts", fn + str(i), "an index out of range does not throw")
        st = State()
        l = Loc(("s", "target"))
        st.store[l.root] = colour
        new = bits.word("new", 8)
        qs = M.run("set", [l, P.c(i), bits.lower(new, U8)], st)
        if not inside:
            c.expect(all(q.kind == "throw" for q in qs) if qs else None, "parts", "set%d" % i, "an index out of range does not throw")
        elif len(qs) == 1 and qs[0].kind == "return":
            v = qs[0].st.store[l.root]
            for k in names:
                b = bits.bits_of(v.get(k), 8) if isinstance(v, Rec) else None
                c.expect(bits.same(b, new if k == names[i] else ch[k]), "parts", "set%d" % i, "part %s is wrong after writing part %s" % (k, names[i]))
        else:
            c.undecided("parts", "set%d" % i, "%d paths" % len(qs))


def compare_rules(M, c, names):
    """equality on every pattern of equal and different parts"""
    a, b = M.sym("a"), M.sym("b")
    for eqs in product((0, 1), repeat=len(names)):
        st = State()
        for k, e in zip(names, eqs):
            st.facts.assume(c_eq(a.get(k), b.get(k), "i"), bool(e))
        for fn, want in (("eq", all(eqs)), ("ne", not all(eqs))):
            for q in M.run(fn, [a, b], st):
                c.count("paths")
                verdict(c, "equality", fn, q, want, "parts equal: %s" % (eqs,))
    for eqs in product((0, 1), repeat=2):
        st = State()
        x = {k: P.a(Sym("co", (0, k), I64)) for k in "xy"}
        y = {k: P.a(Sym("co", (1, k), I64)) for k in "xy"}
        for k, e in zip("xy", eqs):
            st.facts.assume(c_eq(x[k], y[k], "i"), bool(e))
        for fn, want in (("peq", all(eqs)), ("pne", not all(eqs))):
            if not M.p.find("drv::" + fn, all=True):
                continue
            for q in M.run(fn, [Rec(M.pid, dict(x)), Rec(M.pid, dict(y))], st):
                c.count("paths")
                verdict(c, "equality", fn, q, want, "coordinates equal: %s" % (eqs,))


def verdict(c, rule, fn, q, want, where):
    v = q.val
    r = v.const() if isinstance(v, P) else None
    if r is None and isinstance(v, P):
        r = q.facts.query(v)
    c.expect(None if r is None or q.kind != "return" else bool(r) == want, rule, fn, "%s: yields %s" % (where, r))


def arithmetic(M, c, names):
    a, b = M.sym("a"), M.sym("b")
    for fn, cfn, sg in (("add", "addto", 1), ("sub", "subto", -1)):
        for f in (fn, cfn):
            st = State()
            l = Loc(("s", "left"))
            st.store[l.root] = a
            hit = {k: 0 for k in names}
            for q in M.run(f, [l, b], st):
                c.count("paths")
                v = q.val
                if f == cfn:
                    if not (isinstance(v, Loc) and v.root == l.root):
                        c.undecided("arithmetic", f, "does not return its left operand")
                    v = q.st.store[l.root]
                if q.kind != "return" or not isinstance(v, Rec):
                    c.undecided("arithmetic", f, q.kind)
                    continue
                for k in names:
                    c.expect(clamped(q.facts, v.get(k), a.get(k) + b.get(k).scale(sg)), "arithmetic", f, "part %s: %s" % (k, v.get(k)))
            # constants decide what the symbolic form leaves open
            for x, y in ((0, 0), (255, 255), (200, 55), (200, 56), (1, 2), (2, 1), (0, 255), (255, 0), (128, 127), (17, 17)):
                xs, ys = [(x + 3 * i) % 256 for i in range(len(names))], [(y + 5 * i) % 256 for i in range(len(names))]
                st = State()
                st.store[l.root] = M.col(*xs)
                q, _ = M.one(f, [l, M.col(*ys)], st, "")
                v = q and (q.st.store[l.root] if f == cfn else q.val)
                for i, k in enumerate(names):
                    g = v.get(k).const() if isinstance(v, Rec) else None
                    w = min(255, max(0, xs[i] + sg * ys[i]))
                    c.expect(None if g is None else g == w, "arithmetic", f, "%d and %d give %s" % (xs[i], ys[i], g))
    # ---- multiples
    f = P.a(Sym("factor", (), F80))
    for fn in ("mul", "lmul", "multo"):
        st = State()
        l = Loc(("s", "left"))
        st.store[l.root] = a
        st.facts._add(f, lo=-(1 << 40), hi=1 << 40)
        for q in M.run(fn, [f, l] if fn == "lmul" else [l, f], st):
            c.count("paths")
            v = q.st.store[l.root] if fn == "multo" else q.val
            for k in names:
                g = v.get(k) if isinstance(v, Rec) and q.kind == "return" else None
                c.expect(within(q.facts, g, a.get(k) * f, R_HALF) if isinstance(g, P) else None, "scaling", fn, "part %s: %s" % (k, g))
        for x, fac in ((100, 0), (100, 1), (255, 1), (100, 2), (200, 2), (7, -1), (50, 5), (51, 5), (52, 5), (101, Fraction(3, 8)), (11, Fraction(3, 8)), (3, Fraction(1, 4)), (249, Fraction(5, 8))):
            st = State()
            st.store[l.root] = M.col(*([x] * len(names)))
            q, _ = M.one(fn, [P.c(fac), l] if fn == "lmul" else [l, P.c(fac)], st, "")
            v = q and (q.st.store[l.root] if fn == "multo" else q.val)
            for k in names:
                g = v.get(k).const() if isinstance(v, Rec) else None
                c.expect(None if g is None else g == min(255, max(0, (2 * x * fac + 1) // 2)), "scaling", fn, "%d times %d gives %s" % (x, fac, g))
    # ---- interpolation: the ends for all colours, the interior up to rounding
    for fac, src in ((ONE, a), (ZERO, b)):
        for q in M.run("mix", [a, b, fac], State()):
            v = q.val
            for k in names:
                g = v.get(k) if isinstance(v, Rec) and q.kind == "return" else None
                ok = isinstance(g, P) and (g == src.get(k) or q.facts.entails(c_eq(g, src.get(k), "i")))
                d = (g - src.get(k)).atoms() if isinstance(g, P) else None
                c.expect(True if ok else None, "scaling", "lerp", "with %s part %s is %s" % (fac, k, g))
    for fac, src in ((1, 0), (0, 1)):
        for xs in ((10, 200), (0, 255), (255, 0), (254, 255)):
            q, _ = M.one("mix", [M.col(*([xs[0]] * len(names))), M.col(*([xs[1]] * len(names))), P.c(fac)], State(), "")
            for k in names:
                g = q.val.get(k).const() if q is not None and isinstance(q.val, Rec) else None
                c.expect(None if g is None else g == xs[src], "scaling", "lerp", "lerp(%d, %d, %d) is %s" % (xs + (fac, g)))
    st = State()
    st.facts._add(f, lo=0, hi=1)
    x, y = M.sym("a"), M.sym("b")
    for q in M.run("mix", [x, y, f], st):
        c.count("paths")
        v = q.val
        for k in names:
            g = v.get(k) if isinstance(v, Rec) and q.kind == "return" else None
            c.expect(within(q.facts, g, x.get(k) * f + y.get(k) - y.get(k) * f, 1) if isinstance(g, P) else None, "scaling", "lerp", "part %s: %s" % (k, g))


from fractions import Fraction
R_HALF = Fraction(1, 2)


def clamped(F, v, x):
    """v is x clamped to a byte: True / None"""
    if not isinstance(v, P):
        return None
    if v == x and F.entails(c_le(x, P.c(255), "i")) and F.entails(c_le(ZERO, x, "i")):
        return True
    if v.const() == 255 and F.entails(c_le(P.c(255), x, "i")):
        return True
    if v.const() == 0 and F.entails(c_le(x, ZERO, "i")):
        return True
    if F.entails(c_eq(v, x, "i")) and F.entails(c_le(x, P.c(255), "i")) and F.entails(c_le(ZERO, x, "i")):
        return True
    return None


def constants(M, c):
    """blending of constant colours against exact arithmetic"""
    step = 51 if not c.thorough else 17
    for ua in (0, 1, 2, 51, 127, 128, 200, 254, 255):
        for la in (0, 1, 2, 100, 128, 254, 255):
            for i, (u, l) in enumerate(((0, 255), (255, 0), (200, 100), (17, 17), (255, 255))):
                us, ls = [u, (u + 50) % 256, 255 - u], [l, (l + 120) % 256, 255 - l]
                q, _ = M.one("over", [M.col(*ls, la), M.col(*us, ua)], State(), "")
                where = "%s over %s" % (us + [ua], ls + [la])
                if q is None or not isinstance(q.val, Rec):
                    c.undecided("over", "blend", where)
                    continue
                c.count("blends")
                wl = Fraction(la * (255 - ua), 255)
                al = ua + wl
                g = q.val.get("a").const()
                c.expect(None if g is None else abs(g - al) <= 1 and g >= ua, "over", "blend", "%s: alpha %s instead of about %s" % (where, g, float(al)))
                for k, x, y in zip("rgb", us, ls):
                    g = q.val.get(k).const()
                    if al == 0:
                        ok = None if g is None else True
                    else:
                        # alpha is an integer: the weight of the lower colour may be rounded to either side
                        ws = [wl, Fraction(wl.numerator // wl.denominator), Fraction(-(-wl.numerator // wl.denominator))]
                        ms = [Fraction(x * ua + y * w, ua + w) for w in ws if ua + w]
                        ok = None if g is None else min(ms) - 1 <= g <= max(ms) + 1
                        if ok and (ua in (0, 255)):
                            ok = g == (x if ua else y)
                    c.expect(ok, "over", "blend", "%s: part %s is %s" % (where, k, g))


def palette_rule(M, c):
    for i, (n, v) in enumerate(zip(NAMES, VALUES)):
        if n == "TRANSPARENT" and len(M.names) < 4:
            continue
        q, _ = M.one("palette", [P.c(i)], State(), "")
        g = [q.val.get(k).const() for k in M.names] if q is not None and isinstance(q.val, Rec) else None
        c.expect(None if g is None or None in g else g == [v >> 24, v >> 16 & 255, v >> 8 & 255, v & 255][:len(M.names)], "palette", n, "is %s" % (g,))


# ---------------------------------------------------------------------- file format
def crc(bs):
    """CRC-32 (ISO 3309) of a list of byte functions, bit by bit"""
    r = bits.Bv(0xFFFFFFFF)
    for b in bs:
        r = r ^ b
        for _ in range(8):
            r = r.map(lambda v: (v >> 1) ^ (0xEDB88320 if v & 1 else 0))
    return r ^ bits.Bv(0xFFFFFFFF)


def be32(v):
    return [v.map(lambda x, s=s: (x >> s) & 255) for s in (24, 16, 8, 0)]


def cbytes(*xs):
    return [bits.Bv(x & 255) for x in xs]


def adler(B, bs):
    """Adler-32 (RFC 1950)"""
    U32 = NumTy("i", 32, False)
    st = State()
    a, b = ONE, ZERO
    m = P.c(65521)
    for x in bs:
        a = B.arith(st, "%", B.arith(st, "+", a, bits.lower(x, U32), U32), m, U32)
        b = B.arith(st, "%", B.arith(st, "+", b, a, U32), m, U32)
    x, y = bits.bits_of(a, 32), bits.bits_of(b, 32)
    return [y.map(lambda v: v >> 8 & 255), y.map(lambda v: v & 255), x.map(lambda v: v >> 8 & 255), x.map(lambda v: v & 255)]


def png_spec(B, rows):
    """the parts of a PNG with stored deflate blocks, row by row from the top"""
    h, w = len(rows), len(rows[0])
    ihdr = [bits.Bv(ord(x)) for x in "IHDR"] + be32(bits.Bv(w)) + be32(bits.Bv(h)) + cbytes(8, 6, 0, 0, 0)
    raw = []
    for r in rows:
        line = [bits.Bv(0)]
        for px in r:
            line += [bits.bits_of(px.get(k), 8) for k in "rgba"]
        raw.append(line)
    return ihdr, raw


def stream(q, sink=None):
    """bytes written on the path as functions of the input, or None"""
    out = []
    for e in q.ev:
        if e[0] != "out":
            continue
        v = e[2]
        for x in v.args if isinstance(v, Sym) and v.op == "cat" else (v,):
            if isinstance(x, Str):
                out += [bits.Bv(ord(ch) & 255) for ch in x.s]
            elif isinstance(x, Sym) and x.op == "chr":
                b = bits.bits_of(x.args[0], 8)
                if b is None:
                    return None
                out.append(b)
            else:
                return None
    return out


@prop("P03", floor=40)
def p03(c):
    c.rule("signature", "the file starts with the PNG signature")
    c.rule("chunks", "the file is a sequence of chunks IHDR, IDAT..., IEND whose length fields equal their contents, and nothing follows")
    c.rule("checksum", "every chunk ends with the CRC-32 of its type and data, for every picture")
    c.rule("header", "the header names width, height, eight bits per part, true colour with alpha, no filter and no interlacing")
    c.rule("deflate", "the data is a zlib stream of stored blocks whose lengths and complements agree, only the last one is final, and nothing follows but its Adler-32")
    c.rule("picture", "the scanlines hold the pixels of the image, the row with the largest y first, with filter type 0")
    c.rule("file", "a picture is written to the file of its name, exactly if it has a name and a pixel, by write and at the end of its life")
    M = Img(c)
    M.I = B = bits.BitInterp(M.p, widen=False)
    B.keep = 4096
    B.oob = True
    p = M.p
    U = U8

    def px(x, y):
        return Rec(M.cid, {k: bits.lower(bits.word(("png", x, y, k), 8), U) for k in "rgba"})
    jobs = []
    for w, h in ((1, 1), (2, 1), (1, 2), (3, 2), (2, 3), (1, 6), (5, 1)):
        jobs.append((w, h, lambda x, y: px(x, y)))
    for w, h in ((64, 2), (70, 1), (1, 260)) + (((300, 2), (3, 400), (40, 30)) if c.thorough else ()):
        jobs.append((w, h, lambda x, y, w=w, h=h: px(x, y) if (x, y) in ((0, 0), (w - 1, h - 1), (w // 2, 0)) else M.col((x * 37 + y * 11) % 256, 255 - (x + y) % 7, 250, (x * y) % 256)))
    name = Str("picture.png")
    for w, h, at in jobs:
        if any(o[2] == "bad" for o in c.obs):   # the larger pictures add nothing, and a wrong checksum is not linear
            break
        where = "%dx%d" % (w, h)
        q, _ = M.one("named", [name], State(), "")
        if q is None:
            raise AnalysisBroken("the constructor with a file name has no single path")
        st = q.st
        st.ev = []
        st.store[M.img.root] = q.val
        rows = [[at(x, y) for x in range(w)] for y in range(h)]
        q, _ = M.one("clear", [M.img, P.c(w), P.c(h), M.col(255, 250, 250, 0)], st, "")
        if q is None:
            raise AnalysisBroken("clear has no single path")
        st = q.st
        for y, x in product(range(h), range(w)):
            q, _ = M.one("put", [M.img, P.c(x), P.c(y), rows[y][x]], st, "")
            if q is None:
                raise AnalysisBroken("writing a pixel has no single path")
            st = q.st
        st.ev = []
        qs = M.run("write", [M.img], st)
        if len(qs) != 1 or qs[0].kind != "return":
            c.undecided("chunks", "PNG::write", "%s: %d paths" % (where, len(qs)))
            continue
        q = qs[0]
        for e in q.ev:
            if e[0] in ("ub", "oob"):
                c.bad("chunks", "PNG::write", "%s: %s" % (where, e[1]))
        opens = [e for e in q.ev if e[0] == "open"]
        c.expect(len(opens) == 1 and opens[0][2] == name, "file", "PNG::write", "%s opens %s" % (where, opens))
        bs = stream(q)
        if bs is None:
            c.undecided("chunks", "PNG::write", where)
            continue
        c.count("bytes", len(bs))
        decode(c, B, bs, rows, w, h, where)
    files(c, M, B, px)


def val(b):
    return b.const() if b is not None else None


def decode(c, B, bs, rows, w, h, where):
    k = "PNG::write"
    sig = [val(b) for b in bs[:8]]
    if not c.expect(None if None in sig else sig == [0x89, 0x50, 0x4E, 0x47, 13, 10, 26, 10], "signature", k, "%s: %s" % (where, sig)):
        return
    i, chunks = 8, []
    while i < len(bs):
        ln = [val(b) for b in bs[i:i + 4]]
        ty = [val(b) for b in bs[i + 4:i + 8]]
        if None in ln or None in ty or len(ty) < 4:
            return c.expect(False if len(ty) < 4 else None, "chunks", k, "%s: %d bytes after the last chunk" % (where, len(bs) - i))
        n = int.from_bytes(bytes(ln), "big")
        if not c.expect(i + 12 + n <= len(bs), "chunks", k, "%s: chunk %s of length %d ends behind the end of the file" % (where, bytes(ty), n)):
            return
        data = bs[i + 8:i + 8 + n]
        chunks.append((bytes(ty), data))
        want = be32(crc(bs[i + 4:i + 8 + n]))
        for j in range(4):
            if not c.expect(bits.same(bs[i + 8 + n + j], want[j]), "checksum", k, "%s: CRC of chunk %s" % (where, bytes(ty))):
                return
        i += 12 + n
    names = [t for t, _ in chunks]
    if not c.expect(len(names) > 2 and names[0] == b"IHDR" and names[-1] == b"IEND" and set(names[1:-1]) == {b"IDAT"} and not chunks[-1][1], "chunks", k, "%s: chunks %s" % (where, names)):
        return
    hd = [val(b) for b in chunks[0][1]]
    if not c.expect(None if None in hd else hd == list(w.to_bytes(4, "big") + h.to_bytes(4, "big")) + [8, 6, 0, 0, 0], "header", k, "%s: header %s" % (where, hd)):
        return
    z = [b for t, d in chunks if t == b"IDAT" for b in d]
    f = [val(b) for b in z[:2]]
    if not c.expect(None if None in f else f[0] & 15 == 8 and f[0] >> 4 <= 7 and (f[0] * 256 + f[1]) % 31 == 0 and not f[1] & 32, "deflate", k, "%s: zlib header %s" % (where, f)):
        return
    j, out, final = 2, [], 0
    while not final:
        hd = [val(b) for b in z[j:j + 5]]
        if None in hd or len(hd) < 5:
            c.expect(False if len(hd) < 5 else None, "deflate", k, "%s: the data ends before the final block" % where)
            return
        final = hd[0] & 1
        if hd[0] & 6:
            return c.undecided("deflate", k, "%s: a block that is not stored" % where)
        n, m = hd[1] | hd[2] << 8, hd[3] | hd[4] << 8
        if not c.expect(n ^ m == 0xFFFF and j + 5 + n <= len(z) - 4, "deflate", k, "%s: block length %d, complement %d, %d bytes left" % (where, n, m, len(z) - j - 5)):
            return
        out += z[j + 5:j + 5 + n]
        j += 5 + n
    if not c.expect(j == len(z) - 4, "deflate", k, "%s: %d bytes behind the final block" % (where, len(z) - 4 - j)):
        return
    want = adler(B, out)
    for x, y in zip(z[j:], want):
        if not c.expect(bits.same(x, y), "deflate", k, "%s: Adler-32" % where):
            return
    if not c.expect(len(out) == h * (4 * w + 1), "picture", k, "%s: %d bytes of scanlines" % (where, len(out))):
        return
    for y in range(h):
        line = out[y * (4 * w + 1):][:4 * w + 1]
        r = rows[h - 1 - y]
        if not c.expect(None if val(line[0]) is None else val(line[0]) == 0, "picture", k, "%s: filter type" % where):
            return
        ok = True
        for x in range(w):
            for t, ch in enumerate("rgba"):
                s = bits.same(line[1 + 4 * x + t], bits.bits_of(r[x].get(ch), 8))
                if s is not True:
                    ok = s
                    break
            if ok is not True:
                break
        if not c.expect(ok, "picture", k, "%s: scanline %d" % (where, y)):
            return


def files(c, M, B, px):
    nm = Sym("name", ())
    blank = M.col(0, 0, 0, 0)
    # unnamed images write nothing
    st = M.blank(2, 1, px(0, 0))
    for q in M.run("write", [M.img], st):
        c.expect(not [e for e in q.ev if e[0] in ("open", "out")], "file", "PNG::write", "an image without a name is written")
    # named ones without pixels neither
    q, _ = M.one("named", [nm], State(), "")
    base = q.st
    base.ev = []
    base.store[M.img.root] = q.val
    for dims_ in (None, (0, 0), (0, 3), (3, 0)):
        st = base
        if dims_:
            q, qs = M.one("clear", [M.img, P.c(dims_[0]), P.c(dims_[1]), blank], st, "")
            if q is None:
                c.undecided("file", "PNG::clear", "%s" % (dims_,))
                continue
            st = q.st
            st.ev = []
        qs = M.run("write", [M.img], st)
        for q in qs:
            c.expect(q.kind == "return" and not [e for e in q.ev if e[0] in ("open", "out")], "file", "PNG::write", "an image of size %s is written" % (dims_,))
    # the end of life writes once, to the same name
    for w, h in ((1, 1), (2, 3), (0, 0)):
        for q in M.run("scope", [nm, P.c(w), P.c(h), M.col(1, 2, 3, 4)], State()):
            o = [e for e in q.ev if e[0] == "open"]
            n = 1 if w and h else 0
            c.expect(len(o) == n and all(e[2] == nm for e in o), "file", "PNG::~PNG", "an image of size %dx%d opens %s" % (w, h, o))
    # init names the picture and opens the test files
    start(c, M, ".png", "file", "Visualizer::init")


def start(c, M, ext, rule, what):
    from c_roles import argv
    I = Interp(M.p, widen=True)
    I.keep = 4096
    st = State()
    w0, w1 = Sym("word", (0,)), Sym("word", (1,))
    a = argv(I, st, [w0, w1, Sym("word", (2,))])
    # the global image as its default constructor leaves it
    for g in [d for d in M.p.globals.values() if d["q"] == "Visualizer::image"]:
        l = Loc(("g", g["id"]))
        t = M.p.ty(g["t"])
        f = [f for f in M.p.find("%s::%s" % (M.kind, M.kind), all=True) if not f["ps"]]
        qs = I.run(f[0], l, [], st) if f else []
        if len(qs) == 1 and qs[0].kind == "return":
            st = qs[0].st
            st.ev = []
    for fn in ("start", "startdraw"):
        qs = I.run(M.p.find("drv::" + fn), None, a, st.fork())
        for q in qs:
            if q.kind != "return":
                c.undecided(rule, what, q.kind)
                continue
            o = [e for e in q.ev if e[0] == "open"]
            ins = [e[2] for e in o if "ofstream" not in e[1]]
            outs = [e[2] for e in o if "ofstream" in e[1]]
            want = [models.cat(w1, Str(".in")), models.cat(w1, Str(".ans"))]
            c.expect(sorted(map(repr, ins)) == sorted(map(repr, want)), rule, what, "opens %s" % (ins,))
            we = [models.cat(w1, Str(ext))] if fn == "startdraw" else []
            c.expect(outs == we, rule, what, "%s writes %s" % (fn, outs))
