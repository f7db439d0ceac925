"""The SVG visualizer: text of the shapes, bounding box, document, colours and geometry."""
import re
from fractions import Fraction
from itertools import product
from check import prop
from front import *
from interp import *
from front import load
from c_args import ROOTS
from c_png import Img, colour_rules, ctor, literal, parts, compare_rules, arithmetic, palette_rule, start, U8
import models
import poly
import bits

_p = {}
SINK = Str("SINK")


def sprog():
    if not _p:
        _p[0] = load("svg.cpp", [], "c++17", roots=ROOTS)
    return _p[0]


def R(*n):
    return P.a(Sym("real", n, F80))


class Svg(Img):
    def __init__(self, c):
        super().__init__(c, sprog(), "rgb")
        self.kind = "SVG"
        self.os = Loc(("s", "os"))

    def sink(self):
        st = State()
        st.store[self.os.root] = Rec("std::basic_ostream", {"$sink": SINK})
        return st

    def make(self, name=None):
        """state with an SVG object"""
        st = State()
        st.store[self.img.root] = None
        fs = [f for f in self.p.find("SVG::SVG", all=True) if len(f["ps"]) == (0 if name is None else 1) and (name is None or "basic_string" in str(self.p.ty(self.p.strip_ref(f["ps"][0]["t"])).get("q")))]
        del st.store[self.img.root]
        args = []
        if name is not None:
            l = Loc(("s", "svgname"))
            st.store[l.root] = name
            args = [l]
        qs = self.I.run(fs[0], self.img, args, st)
        if len(qs) != 1 or qs[0].kind != "return":
            raise AnalysisBroken("the constructor of SVG has no single path")
        return qs[0].st

    def put(self, st, box):
        q, _ = self.one("setbox", [self.img] + [x if isinstance(x, P) else P.c(x) for x in box], st, "")
        if q is None:
            raise AnalysisBroken("origin and dimension cannot be written")
        return q.st

    def box(self, st):
        v = self.I.read(st, self.img)
        o, d = v.get("origin"), v.get("dimension")
        return [self.I.rv(st, x) for x in (o.get("x"), o.get("y"), d.get("width"), d.get("height"))]


# ------------------------------------------------------------------ text
def text(q, sink):
    """pieces written to a sink: characters and values"""
    out = []
    for e in q.ev:
        if e[0] == "out" and e[1] == sink:
            vs = e[2].args if isinstance(e[2], Sym) and e[2].op == "cat" else [e[2]]
            for v in vs:
                out.extend(v.s if isinstance(v, Str) else [v])
    return out


def literals(xs):
    return "".join(x if isinstance(x, str) else "\0" for x in xs)


class Bad(Exception):
    pass


def markup(xs):
    """list of elements: (name, {attribute: pieces}, kind) with kind empty/open/close/comment/text"""
    s = literals(xs)
    i, out = 0, []
    while i < len(s):
        if s[i] != "<":
            j = s.find("<", i)
            j = len(s) if j < 0 else j
            if s[i:j].strip() or "\0" in s[i:j]:
                out.append(("#text", xs[i:j], "text"))
            i = j
            continue
        if s.startswith("<!--", i):
            j = s.find("-->", i + 4)
            if j < 0:
                raise Bad("a comment does not end")
            out.append(("#comment", xs[i + 4:j], "comment"))
            i = j + 3
            continue
        m = re.compile(r"<(/?)([A-Za-z_][\w.-]*)").match(s, i) or re.compile(r"<(\?)(xml)").match(s, i)
        if not m:
            raise Bad("no element name after '<'")
        j, at = m.end(), {}
        while True:
            n = re.compile(r"\s*(/>|\?>|>)").match(s, j)
            if n:
                break
            n = re.compile(r"\s+([A-Za-z_:][\w:.-]*)\s*=\s*([\"'])").match(s, j)
            if not n:
                raise Bad("%r is no attribute of <%s>" % (s[j:j + 30].replace("\0", "?"), m.group(2)))
            e = s.find(n.group(2), n.end())
            if e < 0:
                raise Bad("the value of %s does not end" % n.group(1))
            if n.group(1) in at:
                raise Bad("attribute %s of <%s> appears twice" % (n.group(1), m.group(2)))
            if "<" in s[n.end():e]:
                raise Bad("the value of %s contains '<'" % n.group(1))
            at[n.group(1)] = xs[n.end():e]
            j = e + 1
        end = n.group(1)
        kind = "decl" if m.group(1) == "?" else "close" if m.group(1) else "empty" if end == "/>" else "open"
        if (kind == "decl") != (end == "?>"):
            raise Bad("<%s ends with %s" % (m.group(2), end))
        out.append((m.group(2), at, kind))
        i = n.end()
    return out


def words(xs):
    """a value as list of words, each a number (P), a string, or None"""
    out, cur = [], []
    for x in list(xs) + [" "]:
        if isinstance(x, str) and x in " \t\n,":
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(x)
    return [word(w) for w in out]


def word(w):
    if len(w) == 1 and isinstance(w[0], Sym):
        if w[0].op in ("floatout", "decimal", "intout"):
            return w[0].args[0]
        return None
    if all(isinstance(x, str) for x in w):
        s = "".join(w)
        try:
            return P.c(Fraction(s))
        except (ValueError, ZeroDivisionError):
            return s
    if any(isinstance(x, Sym) and isinstance(y, Sym) and x.op == y.op == "floatout" for x, y in zip(w, w[1:])):
        return ("numbers without a separator", ())
    if w[0] == "-" and len(w) == 2:
        x = word(w[1:])
        return -x if isinstance(x, P) else None
    if w[0] == "#":
        # hexadecimal bytes
        r, k = [], 1
        while k < len(w):
            x = w[k]
            if isinstance(x, str):
                if k + 1 >= len(w) or not isinstance(w[k + 1], str):
                    return None
                try:
                    r.append(P.c(int(x + w[k + 1], 16)))
                except ValueError:
                    return None
                k += 2
                continue
            if x.op != "fmtint":
                return None
            v, b, wd, fl = x.args[:4]
            if (b, wd, fl) != (16, 2, "0") or any(x.args[4:6]):
                return ("no hexadecimal colour", ())    # not two hexadecimal digits
            r.append(v)
            k += 1
        return ("colour", tuple(r))
    return None


def equal(F, a, b):
    """True / False / None"""
    if isinstance(a, P) and isinstance(b, P):
        d = a - b
        if d.const() is not None:
            return d.const() == 0
        if F.entails(c_eq(a, b, "f")):
            return True
        # different polynomials over free variables differ somewhere; with conditions on them only where the conditions hold
        base = poly.rows(F)
        if not base:
            return False
        if poly.nonneg(F, d, base) and poly.nonneg(F, -d, base):
            return True
        for x in (d, -d):
            if poly.feasible(base + [({k: Fraction(v) for k, v in x.t.items()}, True)]) is True and linear(base, x):
                return False
        return None
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[0] != b[0]:
            return False
        if len(a[1]) != len(b[1]):
            return False
        rs = [equal(F, x, y) for x, y in zip(a[1], b[1])]
        return False if False in rs else None if None in rs else True
    if a is None or b is None:
        return None
    return False


def linear(base, x):
    """only free variables, no products: a solution of the constraints is an input"""
    ks = set(x.t) | {k for t, _ in base for k in t}
    return all(not k or (len(k) == 1 and k[0][1] == 1 and k[0][0].op in ("real", "px")) for k in ks)


def values(F, got, exp):
    if len(got) != len(exp):
        return None if None in got else False
    rs = [equal(F, x, y) for x, y in zip(got, exp)]
    return False if False in rs else None if None in rs else True


def shown(xs):
    return " ".join(str(x)[:60] for x in xs)


def element(c, rule, fn, where, q, el, name, exp):
    """el is the element name with exactly the attributes exp: name -> list of words"""
    if el[0] != name or el[2] != "empty":
        return c.bad(rule, fn, "%s writes <%s> (%s) instead of <%s .../>" % (where, el[0], el[2], name))
    for k in sorted(set(el[1]) | set(exp)):
        if k not in el[1]:
            c.bad(rule, fn, "%s: attribute %s is missing" % (where, k))
        elif k not in exp:
            c.bad(rule, fn, "%s: attribute %s is not expected" % (where, k))
        else:
            g = words(el[1][k])
            c.expect(values(q.facts, g, exp[k]), rule, fn, "%s: %s is %s instead of %s" % (where, k, shown(g), shown(exp[k])))


def styles(M, style, a, b, sw):
    col = lambda x: [("colour", tuple(x.get(k) for k in "rgb"))]
    r = {"stroke": col(a), "stroke-width": [sw]} if style & 6 else {"stroke": ["none"]}
    if style & 4:
        r["vector-effect"] = ["non-scaling-stroke"]
    for k, x in ((8, "butt"), (16, "round"), (32, "square")):
        if style & k:
            r["stroke-linecap"] = [x]
    for k, x in ((64, "round"), (128, "bevel"), (256, "miter")):
        if style & k:
            r["stroke-linejoin"] = [x]
    r["fill"] = col(b) if style & 1 else ["none"]
    return r


def geometry(shape, xs):
    if shape == "rect":
        x, y, w, h = xs
        return {"x": [x], "y": [-y - h], "width": [w], "height": [h]}
    if shape == "circle":
        x, y, r = xs
        return {"cx": [x], "cy": [-y], "r": [r]}
    if shape == "ellipse":
        x, y, r, s = xs
        return {"cx": [x], "cy": [-y], "rx": [r], "ry": [s]}
    if shape == "line":
        x, y, u, v = xs
        return {"x1": [x], "y1": [-y], "x2": [u], "y2": [-v]}
    return {"points": [z if i % 2 == 0 else -z for i, z in enumerate(xs)]}


STYLES = (0, 1, 2, 3, 4, 5, 2 | 8, 2 | 16, 4 | 32, 3 | 64, 2 | 128, 2 | 256, 3 | 16 | 128, 5 | 8 | 64, 4 | 32 | 256)


def precision(c, q, rule, fn):
    for e in q.ev:
        if e[0] != "manip" or e[2] not in ("setprecision", "hexfloat", "fixed", "scientific"):
            continue
        n = e[3].const() if e[2] == "setprecision" and isinstance(e[3], P) else None
        c.expect(False if e[2] == "hexfloat" or (n is not None and n < 6) else True if n is not None else None, rule, fn, "numbers are written with %s %s" % (e[2], n if n is not None else ""))


@prop("S01", floor=500)
def s01(c):
    c.rule("shape", "a shape writes one empty element of its kind whose attributes are exactly its geometry, with the y axis flipped, and its style")
    c.rule("colour", "a colour is written as # and two hexadecimal digits per part, and the number format of the stream is as before")
    c.rule("comment", "a comment writes its text between comment delimiters and nothing else")
    c.rule("numbers", "numbers are written in decimal with at least six significant digits")
    M = Svg(c)
    a, b = M.sym("stroke"), M.sym("fill")
    sw = R("sw")
    jobs = []
    for st in STYLES:
        for sh, n in (("rect", 4), ("circle", 3), ("ellipse", 4), ("line", 4)):
            xs = [R(sh, i) for i in range(n)]
            jobs.append((sh, [P.c(st), a, b, sw] + xs, sh, xs, st))
        for sh in ("polygon", "polyline"):
            for n in (0, 1, 2, 3) + ((4, 5, 8) if c.thorough else ()):
                if n == 2 or st in (0, 3) or c.thorough:
                    xs = [R(sh, i) for i in range(2 * n)]
                    pts = Vec(P.c(n), ("fill", UNINIT), tuple((P.c(i), Rec(M.pid, {"x": xs[2 * i], "y": xs[2 * i + 1]})) for i in range(n)))
                    l = Loc(("s", "points"))
                    jobs.append((sh, [P.c(st), a, b, sw, (l, pts)], sh, xs, st))
    for fn in ("rect1", "rect2", "rect3", "circle1", "ellipse1", "line1", "polygon1", "polyline1"):
        xs = [R(fn, i) for i in range(3 if fn == "circle1" else 4)]
        jobs.append((fn, xs, fn[:-1] if fn[:-1] in ("line",) else fn.rstrip("123"), xs, 0))
    for fn, args, shape, xs, style in jobs:
        st = M.sink()
        args = list(args)
        for i, x in enumerate(args):
            if isinstance(x, tuple):
                st.store[x[0].root] = x[1]
                args[i] = x[0]
        where = "%s, style %d" % (fn, style)
        qs = M.run(fn, [M.os] + args, st)
        c.count("shapes")
        for q in qs:
            if poly.feasible(poly.rows(q.facts)) is False:
                continue
            if q.kind != "return":
                c.undecided("shape", fn, "%s ends with %s" % (where, q.kind))
                continue
            try:
                els = markup(text(q, SINK))
            except Bad as e:
                c.bad("shape", fn, "%s: %s" % (where, e))
                continue
            if not c.expect(len(els) == 1, "shape", fn, "%s writes %d elements" % (where, len(els))):
                continue
            exp = dict(geometry(shape, xs), **styles(M, style, a, b, sw))
            element(c, "shape", fn, where, q, els[0], shape, exp)
            precision(c, q, "numbers", fn)
    # ---- colours on any stream
    for base in (10, 8, 16):
        st = M.sink()
        if base != 10:
            st.tags[("$fmt", SINK)] = (base,) + models.FMT0[1:]
        for q in M.run("colour", [M.os, a], st):
            g = words(text(q, SINK))
            c.expect(values(q.facts, g, [("colour", tuple(a.get(k) for k in "rgb"))]) if q.kind == "return" else None, "colour", "operator<<", "writes %s" % shown(g))
            fm = models.fmt_of(q.st, SINK)
            c.expect(None if fm[0] is None else fm[0] == base and not any(fm[3:6]) and fm[1] == 0, "colour", "operator<<", "leaves the stream in base %s, width %s" % (fm[0], fm[1]))
    for vals in ((0, 0, 0), (255, 255, 255), (1, 16, 171), (9, 10, 15)):
        for q in M.run("colour", [M.os, M.col(*vals)], M.sink()):
            s = literals(text(q, SINK))
            c.expect(None if "\0" in s else s.lower() == "#%02x%02x%02x" % vals, "colour", "operator<<", "%s is written %s" % (vals, s))
    t = Sym("remark", ())
    for q in M.run("comment", [M.os, t], M.sink()):
        try:
            els = markup(text(q, SINK))
        except Bad as e:
            c.bad("comment", "Comment", str(e))
            continue
        ok = len(els) == 1 and els[0][2] == "comment" and [x for x in els[0][1] if not (isinstance(x, str) and x.isspace())] == [t]
        c.expect(ok, "comment", "Comment", "writes %s" % (els,))


# ------------------------------------------------------------------ bounding box
def extents(shape, xs):
    if shape == "rect":
        x, y, w, h = xs
        return [(x, y), (x + w, y + h)]
    if shape == "circle":
        x, y, r = xs
        return [(x - r, y - r), (x + r, y + r)]
    if shape == "ellipse":
        x, y, r, s = xs
        return [(x - r, y - s), (x + r, y + s)]
    return list(zip(xs[::2], xs[1::2]))


def grown(box, pts):
    x, y, w, h = box
    xs, ys = [x, x + w] + [p[0] for p in pts], [y, y + h] + [p[1] for p in pts]
    return [min(xs), min(ys), max(xs) - min(xs), max(ys) - min(ys)]


def symbolic(c, M, fn, where, qs, box, pts):
    """every side is the extreme one of the candidates, on every path"""
    x, y, w, h = box
    for q in qs:
        c.count("paths")
        if q.kind != "return":
            c.undecided("box", fn, "%s ends with %s" % (where, q.kind))
            continue
        g = M.box(q.st)
        if not all(isinstance(v, P) for v in g):
            c.undecided("box", fn, where)
            continue
        base = poly.rows(q.facts)
        if poly.feasible(base) is False:
            c.count("infeasible paths")
            continue
        le = lambda u, v: poly.nonneg(q.facts, v - u, base)
        for k, lo, sz, a, b in ((0, g[0], g[2], x, x + w), (1, g[1], g[3], y, y + h)):
            lows, highs = [a] + [p[k] for p in pts], [b] + [p[k] for p in pts]
            hi = lo + sz
            n = "xy"[k]
            c.expect(True if all(le(lo, z) for z in lows + highs) else None, "box", fn, "%s: lower %s" % (where, n))
            c.expect(True if all(le(z, hi) for z in lows + highs) else None, "box", fn, "%s: upper %s" % (where, n))
            c.expect(True if any(lo == z or (le(lo, z) and le(z, lo)) for z in lows) else None, "box", fn, "%s: lower %s is no coordinate at hand" % (where, n))
            c.expect(True if any(hi == z or (le(hi, z) and le(z, hi)) for z in highs) else None, "box", fn, "%s: upper %s is no coordinate at hand" % (where, n))


@prop("S02", floor=1000)
def s02(c):
    c.rule("box", "after a point or shape is included, the box is the smallest one that contains the box before and the extent of the shape")
    c.rule("extent", "for constant coordinates: the same, compared with exact arithmetic; comments and text leave the box alone")
    M = Svg(c)
    base = M.make()
    base.ev = []
    ob = [R("x"), R("y"), R("w"), R("h")]
    p, r = [R("p", 0), R("p", 1)], [R("r", i) for i in range(4)]

    def start(box):
        st = M.put(base, box)
        for v in box[2:]:
            if isinstance(v, P):
                st.facts.assume(c_le(ZERO, v, "f"), True)
        for v in box + p + r:
            if isinstance(v, P):
                st.facts.nn |= frozenset(v.atoms())     # coordinates are numbers
        return st

    def pts(st, xs):
        l = Loc(("s", "points"))
        xs = [v if isinstance(v, P) else P.c(v) for v in xs]
        st.store[l.root] = Vec(P.c(len(xs) // 2), ("fill", UNINIT), tuple((P.c(i), Rec(M.pid, {"x": xs[2 * i], "y": xs[2 * i + 1]})) for i in range(len(xs) // 2)))
        return [l]
    # ---- one point, all boxes and points
    symbolic(c, M, "include", "a point", M.run("include", [M.img] + p, start(ob)), ob, [tuple(p)])
    for fn, shape, xs in (("gcircle", "circle", r[:3]), ("gline", "line", r)) + (("grect", "rect", r), ("gellipse", "ellipse", r)):
        symbolic(c, M, fn, "a %s" % shape, M.run(fn, [M.img] + xs, start(ob)), ob, extents(shape, xs))
    # ---- constants
    boxes = ((0, 0, 0, 0), (2, 3, 4, 5), (-7, -2, 3, 1), (-1, -1, 2, 0))
    n = 0
    for box in boxes:
        st = start([P.c(v) for v in box])
        xs = sorted({box[0] - 2, box[0], box[0] + box[2] // 2, box[0] + box[2], box[0] + box[2] + 3})
        ys = sorted({box[1] - 1, box[1], box[1] + box[3] // 2, box[1] + box[3], box[1] + box[3] + 2})
        jobs = [("include", [x, y], [(x, y)]) for x in xs for y in ys]
        for x, y in product(xs[::2], ys[::2]):
            for a, b in ((1, 2), (6, 0), (0, 0), (3, 9), (Fraction(1, 2), Fraction(3, 4))):
                jobs.append(("grect", [x, y, a, b], extents("rect", [x, y, a, b])))
                jobs.append(("gcircle", [x, y, a], extents("circle", [x, y, a])))
                jobs.append(("gellipse", [x, y, a, b], extents("ellipse", [x, y, a, b])))
                jobs.append(("gline", [x, y, x + a, y - b], extents("line", [x, y, x + a, y - b])))
                for m in (1, 2, 3):
                    cs = [x, y, x - a, y + b, x + 2 * b, y - a][:2 * m]
                    jobs.append(("gpolygon", cs, extents("points", cs)))
                    jobs.append(("gpolyline", cs, extents("points", cs)))
        for fn, v, ex in jobs + [("gpolygon", [], []), ("gpolyline", [], [])]:
            s = st
            if fn in ("gpolygon", "gpolyline"):
                s = st.fork()
                args = pts(s, v)
            else:
                args = [P.c(z) for z in v]
            q, qs = M.one(fn, [M.img] + args, s, "")
            where = "box %s, %s%s" % (box, fn, tuple(map(str, v)))
            if q is None:
                c.undecided("extent", fn, "%s has %d paths" % (where, len(qs)))
                continue
            g = [z.const() if isinstance(z, P) else None for z in M.box(q.st)]
            c.count("insertions")
            c.expect(None if None in g else g == grown(box, ex), "extent", fn, "%s gives %s instead of %s" % (where, list(map(str, g)), list(map(str, grown(box, ex)))))
        for fn in ("gcomment", "gtext"):
            for q in M.run(fn, [M.img, Sym("remark", ())], st):
                g = [z.const() if isinstance(z, P) else None for z in M.box(q.st)]
                c.expect(None if None in g else g == list(box), "extent", fn, "%s changes the box %s to %s" % (fn, box, g))


# ------------------------------------------------------------------ document
def document(c, fn, where, q, path, box, shapes):
    """the single file written is an SVG document with the given box and elements; shapes: (element, attributes)"""
    opens = [e for e in q.ev if e[0] == "open" and "ofstream" in e[1]]
    if not c.expect(len(opens) == 1, "written", fn, "%s: the files %s are written" % (where, [str(e[2]) for e in opens])):
        return
    c.expect(opens[0][2] == path or None, "written", fn, "%s: the file is %s" % (where, opens[0][2]))
    sinks = {e[1] for e in q.ev if e[0] == "out" and isinstance(e[1], Sym) and e[1].op == "ofstream"}
    if len(sinks) != 1:
        return c.expect(False if not sinks else None, "document", fn, "%s: %d streams" % (where, len(sinks)))
    xs = text(q, sinks.pop())
    try:
        els = markup(xs)
    except Bad as e:
        return c.bad("document", fn, "%s: %s" % (where, e))
    if els and els[0][2] == "decl":
        d = {k: literals(v).lower() for k, v in els[0][1].items()}
        c.expect(literals(xs).startswith("<?xml"), "document", fn, "%s: the declaration is not at the beginning" % where)
        c.expect(list(els[0][1])[0] == "version" and d.get("version") == "1.0" and d.get("encoding", "utf-8").replace("-", "") == "utf8" and set(d) <= {"version", "encoding", "standalone"}, "document", fn, "%s: declaration %s" % (where, d))
        els = els[1:]
    if not c.expect(len(els) >= 2 and els[0][0] == els[-1][0] == "svg" and els[0][2] == "open" and els[-1][2] == "close" and els[-1][1] == {}, "document", fn, "%s: the document is not one svg element" % where):
        return
    at = els[0][1]
    c.expect(literals(at.get("xmlns", [])) == "http://www.w3.org/2000/svg", "document", fn, "%s: the name space is missing" % where)
    x, y, w, h = box
    g = words(at.get("viewBox", []))
    c.expect(values(q.facts, g, [x, -y - h, w, h]), "viewbox", fn, "%s: viewBox is %s instead of %s" % (where, shown(g), shown([x, -y - h, w, h])))
    body = els[1:-1]
    if not c.expect(len(body) == len(shapes), "document", fn, "%s: %d elements instead of %d" % (where, len(body), len(shapes))):
        return
    for b, (name, exp) in zip(body, shapes):
        if name in ("#comment", "#text"):
            ys = [v for v in b[1] if not (isinstance(v, str) and v.isspace())]
            c.expect(b[0] == name and ys == (list(exp) if not isinstance(exp, Sym) else [exp]), "document", fn, "%s: %s instead of %s" % (where, b, exp))
        else:
            element(c, "document", fn, where, q, b, name, exp)


@prop("S03", floor=150)
def s03(c):
    c.rule("written", "a document is written to the file of its name exactly if it has a name and content: by write and at the end of its life, once each")
    c.rule("document", "the file is one svg element in the SVG name space that contains exactly what was inserted, in order")
    c.rule("viewbox", "the view box is the bounding box, with the y axis flipped")
    c.rule("init", "Visualizer::init opens the .in and .ans file of the name given and binds the image to its .svg file")
    M = Svg(c)
    nm = Sym("name", ())
    none = {"stroke": ["none"], "fill": ["none"]}

    def el(shape, xs):
        return shape, dict(geometry(shape, xs), **none)
    cs = [(0, 0, 1, 1), (2, 3, 4, 5), (-7, 2, 3, 1), (-3, -4, 2, 3), (1, -1, 0, 2), (5, -6, 7, 11)]
    for v in cs:
        k = [P.c(z) for z in v]
        box = [P.c(z) for z in grown((0, 0, 0, 0), extents("rect", v))]
        for q in M.run("scope", [nm] + k, State()):
            c.count("documents")
            document(c, "scope", "a rectangle %s" % (v,), q, nm, box, [el("rect", k)])
        for q in M.run("anon", k, State()):
            c.expect(not [e for e in q.ev if e[0] == "open"], "written", "anon", "an image without a name is written")
        lb = [P.c(z) for z in grown((0, 0, 0, 0), extents("line", v))]
        x, y, u, w = k
        for q in M.run("two", [nm] + k, State()):
            c.count("documents")
            document(c, "two", "two lines %s" % (v,), q, nm, lb, [el("line", k), el("line", [u, w, x, y]), ("#comment", list("end"))])
        for q in M.run("moved", [nm] + k, State()):
            c.count("documents")
            document(c, "moved", "assigned, then a line %s" % (v,), q, nm, lb, [el("line", k)])
    for q in M.run("empty", [nm], State()):
        c.expect(not [e for e in q.ev if e[0] == "open"], "written", "empty", "an empty image is written")
    # ---- any box, any text
    for named in (True, False):
        st = M.make(nm if named else None)
        st.ev = []
        for q in M.run("write", [M.img], st):
            c.expect(not [e for e in q.ev if e[0] == "open"], "written", "write", "an empty image is written")
        t = Sym("anything", ())
        st.facts.assume(c_le(ONE, models.sizeof(M.I, st, t), "i"), True)
        q, qs = M.one("gtext", [M.img, t], st, "")
        if q is None:
            c.undecided("written", "write", "text cannot be inserted")
            continue
        box = [R("x"), R("y"), R("w"), R("h")]
        st = M.put(q.st, box)
        qs = M.run("write", [M.img], st)
        for q in qs:
            if named:
                c.count("documents")
                if not [e for e in q.ev if e[0] == "open"] and len(qs) > 1:
                    c.undecided("written", "write", "the text may be empty")
                    continue
                document(c, "write", "any text in any box", q, nm, box, [("#text", t)])
            else:
                c.expect(not [e for e in q.ev if e[0] == "open"], "written", "write", "an image without a name is written")
        if named and len(qs) == 1:
            # what was written stays, and is written again
            s2 = qs[0].st
            s2.ev = [e for e in s2.ev if not (e[0] == "open" or (e[0] == "out" and isinstance(e[1], Sym) and e[1].op == "ofstream"))]
            for q in M.run("write", [M.img], s2):
                document(c, "write", "written for the second time", q, nm, box, [("#text", t)])
    start(c, M, ".svg", "init", "Visualizer::init")


# ------------------------------------------------------------------ colours and geometry
@prop("S04", floor=150)
def s04(c):
    M = Svg(c)
    p = M.p
    colour_rules(c, 3)
    c.rule("geometry", "points and dimensions are added and subtracted per coordinate; the compound forms assign exactly that")
    B = bits.BitInterp(p, widen=False)
    B.keep = 4096
    M.I = B
    W = bits.word("rgb", 32)
    x32 = bits.lower(W, NumTy("i", 32, False))
    byte = lambda s: W.map(lambda v: (v >> s) & 0xFF)
    ch = {k: bits.word(("ch", k), 8) for k in "rgb"}
    C = [bits.lower(ch[k], U8) for k in "rgb"]
    ctor(M, c, "c0", [], [bits.Bv(0)] * 3)
    ctor(M, c, "c1", [x32], [byte(16), byte(8), byte(0)])
    ctor(M, c, "cg", C[:1], [ch["r"]] * 3)
    ctor(M, c, "c3", C, [ch[k] for k in "rgb"])
    literal(M, c)
    parts(M, c, M.col(*C), ch, "rgb")
    M.I = I = Interp(p, widen=True)
    I.keep = 4096
    compare_rules(M, c, "rgb")
    arithmetic(M, c, "rgb")
    palette_rule(M, c)
    did = p.rec("Dimension")
    did = did["id"] if isinstance(did, dict) else did
    pt = {"x": R("a", 0), "y": R("a", 1)}
    dm = lambda n: {"width": R(n, 0), "height": R(n, 1)}
    for fn, left, lid, sg in (("pplus", pt, M.pid, 1), ("pminus", pt, M.pid, -1), ("dplus", dm("a"), did, 1), ("dminus", dm("a"), did, -1)):
        d = dm("d")
        for f in (fn, fn + "to"):
            st = State()
            l, r = Loc(("s", "left")), Loc(("s", "right"))
            st.store[l.root], st.store[r.root] = Rec(lid, dict(left)), Rec(did, d)
            qs = I.run(p.find("drv::" + f), None, [l, r], st)
            for q in qs:
                v = q.st.store[l.root] if f != fn else q.val
                v = I.rv(q.st, v)
                if q.kind != "return" or not isinstance(v, Rec):
                    c.undecided("geometry", f, q.kind)
                    continue
                if f != fn:
                    c.expect(isinstance(q.val, Loc) and q.val.root == l.root or None, "geometry", f, "does not return its left operand")
                for a, b in zip(left, ("width", "height")):
                    g, w = v.get(a), left[a] + d[b].scale(sg)
                    c.expect(g == w if isinstance(g, P) and len(qs) == 1 else None, "geometry", f, "%s is %s" % (a, g))
