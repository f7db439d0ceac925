"""Path-sensitive interprocedural abstract interpreter over the exported program.

For an entry point and an abstract entry state it computes path summaries: the facts guarding
the path, the ordered external effects, the abstract result and the way the path ends (return,
throw, program exit).  Calls to functions of the analysed repository are inlined, library calls
are abstract models.  Loops are unrolled to a stated bound; longer paths are counted as cut.
"""
from fractions import Fraction
from dom import *
from front import AnalysisBroken, norm, stripta, where
import sys

sys.setrecursionlimit(20000)


class RefV(V):
    """content of a reference variable"""
    __slots__ = F = ("loc",)

    def __init__(self, loc):
        self.loc = loc


class State:
    __slots__ = ("store", "facts", "ev", "ab", "ctr", "loops", "tags")

    def __init__(self):
        self.store, self.facts, self.ev, self.ab, self.ctr, self.loops, self.tags = {}, Facts(), [], None, 0, 0, {}

    def fork(self):
        s = State()
        s.store, s.facts, s.ev, s.ab, s.ctr, s.loops, s.tags = dict(self.store), self.facts.copy(), list(self.ev), self.ab, self.ctr, self.loops, dict(self.tags)
        return s

    def fresh(self):
        self.ctr += 1
        return self.ctr


class Frame:
    __slots__ = ("id", "f", "this", "caps", "depth", "ret")

    def __init__(self, id, f, this, caps, depth):
        self.id, self.f, self.this, self.caps, self.depth = id, f, this, caps or {}, depth


class Path:
    """one path summary"""

    def __init__(self, st, kind, val):
        self.st, self.kind, self.val, self.ev, self.facts = st, kind, val, st.ev, st.facts


class OutOfRange(Exception):
    """a path that certainly leaves an array (only with oob = 'stop')"""


class Interp:
    def __init__(self, prog, unroll=3, depth=40, max_states=60000, hooks=None, opaque=(), merge=True, drop_out=None, widen=False):
        self.p = prog
        self.unroll, self.maxdepth, self.max_states = unroll, depth, max_states
        self.quiet_div = False
        self.rounds = 0    # a loop with constant guards that takes more rounds is taken for endless
        self.oob = False   # record reads of elements that do not exist
        self.selfref = set()
        self.hooks = hooks or {}
        self.opaque = set(opaque)
        self.merge = merge
        self.gmode = {}
        self.stats = {"calls": 0, "forks": 0, "cuts": 0, "unknown": {}, "inlined": set(), "externs": {}}
        self.drop_out = drop_out
        self.nstates = 0
        self.vty = {}
        self.houdini = False     # look for bounds of loop variables among the terms at hand
        self.enumerate = False   # follow data-dependent exits of endless loops exactly
        self.widen = widen
        self.keep = 1            # paths of equal outcome kept apart (trace partitioning) up to this number
        self.loops = {}
        self.on_index = self.on_push = self.on_swap = None
        self.terminal = {}
        self.keep_terminal_events = False
        self.widen_exits = False # invariants also for counted loops that may be left early
        self.collapse_terminal = True
        self.split_sel = False  # decide reads of array elements at symbolic positions by branching on the positions
        self.sort_limit = 0     # ranges up to this constant size are sorted by branching on the comparator
        from models import MODELS
        self.models = MODELS

    # ------------------------------------------------------------ types
    def nty(self, ti):
        t = self.p.ty(ti)
        k = t["k"]
        if k == "bool":
            return BOOL
        if k in ("int", "enum"):
            return NumTy("i", t.get("w", 32), bool(t.get("sg", 1)))
        if k == "float":
            return NumTy("f", t["w"], True)
        return None

    def isref(self, ti):
        return self.p.ty(ti)["k"] in ("ref", "rref")

    def recname(self, ti):
        t = self.p.ty(self.p.strip_ref(ti))
        if t["k"] == "rec":
            return norm(t["q"])
        return None

    def typed(self, v, ti):
        """coerce opaque value to a numeric atom when the type is numeric"""
        if isinstance(v, Sym):
            n = self.nty(ti)
            if n is not None:
                if v.ty is None:
                    v = Sym(v.op, v.args, n)
                return P.a(v)
        return v

    # ------------------------------------------------------------ memory
    def rawroot(self, st, root):
        v = st.store.get(root)
        if v is None:
            if root[0] == "g":
                v = self.global_value(st, root[1])
                st.store[root] = v
            else:
                v = Sym("mem", (root if all(isinstance(x, (str, int, Sym)) for x in root) else str(root),))
                st.store[root] = v
        return v

    def select(self, st, v, e):
        if isinstance(v, RefV):
            v = self.read(st, v.loc)
        if isinstance(e, str):
            if isinstance(v, Rec):
                x = v.get(e)
                if x is not None:
                    return x
                return Sym("fld", (v.base if v.base is not None else Sym("rec", (str(v.cls),)), e))
            if isinstance(v, Opt) and e == "$val":
                return v.val
            return Sym("fld", (v, e))
        idx = e[1]
        return self.elem(st, v, idx)

    def elem(self, st, v, idx):
        if isinstance(v, Str):
            c = idx.const() if isinstance(idx, P) else None
            if c is not None:
                if 0 <= c < len(v.s):
                    return P.c(wrapc(ord(v.s[c]), CHAR))
                if c == len(v.s):
                    return ZERO
            return P.a(Sym("strat", (v, idx), CHAR))
        if isinstance(v, Rec) and v.cls == "complex" and isinstance(idx, P) and idx.const() in (0, 1):
            return self.select(st, v, ("re", "im")[idx.const()])  # array-oriented access to std::complex
        if isinstance(v, Vec):
            w = v.writes
            for i in range(len(w) - 1, -1, -1):
                j, x = w[i]
                d = (j - idx)
                q = st.facts.query(c_eq(j, idx, "i")) if d.const() is None else d.const() == 0
                if q is True:
                    return x
                if q is None:
                    return Sym("sel", (Vec(v.n, v.base, w[:i + 1]), idx))
            if v.base[0] == "fill":
                return v.base[1]
            return Sym("elem", (v.base[1], idx))
        return Sym("elem", (v, idx))

    def read(self, st, loc):
        if not isinstance(loc, Loc):
            return loc
        v = self.rawroot(st, loc.root)
        for e in loc.path:
            if self.oob and isinstance(e, tuple) and isinstance(v, Vec) and isinstance(e[1], P):
                i, n = e[1].const(), v.n.const()
                if n is not None and i is not None and not 0 <= i < n:
                    if self.oob == "stop":
                        raise OutOfRange("element %s of %s" % (i, n))
                    st.ev = st.ev + [("oob", str(loc)[:80])]
            v = self.select(st, v, e)
        if isinstance(v, RefV):
            return self.read(st, v.loc)
        if isinstance(v, Rec) and v.cls in self.selfref:
            # pointers of the object into itself travel with the value
            return rebase(v, loc, SELF)
        return v

    def upd(self, st, v, path, nv):
        if not path:
            return nv
        e = path[0]
        if isinstance(v, RefV):
            raise KeyError
        if isinstance(e, str):
            if isinstance(v, Opt):
                return Opt(v.has, self.upd(st, v.val, path[1:], nv))
            if not isinstance(v, Rec):
                v = Rec(None, {}, v if isinstance(v, (Sym, V, P)) else None)
            old = self.select(st, v, e)
            return v.set(e, self.upd(st, old, path[1:], nv))
        idx = e[1]
        if isinstance(v, Rec) and v.cls == "complex" and isinstance(idx, P) and idx.const() in (0, 1):
            return self.upd(st, v, (("re", "im")[idx.const()],) + tuple(path[1:]), nv)
        if not isinstance(v, Vec):
            v = self.asvec(st, v)
        if len(path) > 1:
            nv = self.upd(st, self.elem(st, v, idx), path[1:], nv)
        w = tuple((j, x) for j, x in v.writes if not (j == idx))
        return Vec(v.n, v.base, w + ((idx, nv),))

    def asvec(self, st, v):
        if isinstance(v, Vec):
            return v
        if isinstance(v, Str):
            return Vec(P.c(len(v.s)), ("fill", ZERO), tuple((P.c(i), P.c(wrapc(ord(ch), CHAR))) for i, ch in enumerate(v.s)))
        return Vec(P.a(Sym("size", (v,), U64)), ("sym", v))

    def settle(self, v, loc):
        return rebase(v, SELF, loc) if isinstance(v, Rec) and v.cls in self.selfref else v

    def write(self, st, loc, nv):
        if not isinstance(loc, Loc):
            self.unk("write-nonloc")
            return
        nv = self.settle(nv, loc)
        v = self.rawroot(st, loc.root)
        # follow references stored inside the path
        cur = v
        for i, e in enumerate(loc.path):
            if isinstance(cur, RefV):
                tgt = Loc(cur.loc.root, cur.loc.path + loc.path[i:])
                return self.write(st, tgt, nv)
            if self.oob == "stop" and isinstance(e, tuple) and isinstance(cur, Vec) and isinstance(e[1], P):
                x, n = e[1].const(), cur.n.const()
                if n is not None and x is not None and not 0 <= x < n:
                    raise OutOfRange("element %s of %s is written" % (x, n))
            cur = self.select(st, cur, e)
        if isinstance(cur, RefV) and not isinstance(nv, RefV):
            return self.write(st, cur.loc, nv)
        st.store[loc.root] = self.upd(st, v, loc.path, nv) if loc.path else nv

    def global_value(self, st, d):
        g = self.p.globals.get(d)
        if g is None:
            return Sym("g", (d,))
        q = norm(g["q"])
        m = self.gmode.get(q)
        if callable(m):
            return m(self, st, g)
        if m is not None and m != "init" and m != "sym":
            return m
        if m != "sym" and (g.get("constexpr") or g.get("const") or m == "init" or g.get("slocal")):
            if "cv" in g and g["cv"] is not None:
                v = self.apv(g["cv"], g["t"])
                if v is not None:
                    return v
            if "init" in g and g["init"] is not None:
                fr = Frame(0, None, None, None, 0)
                s2 = st.fork()
                try:
                    rs = self.ev(g["init"], s2, fr)
                except AnalysisBroken:
                    rs = []
                if len(rs) == 1 and rs[0][0].ab is None:
                    return self.rv(rs[0][0], rs[0][1])
        return Sym("g", (q,))

    def apv(self, c, ti):
        if c is None:
            return None
        if "i" in c:
            return P.c(int(c["i"]))
        if "f" in c:
            return self.fconst(c["f"])
        if "a" in c:
            t = self.p.ty(ti)
            xs = [self.apv(x, t.get("p", -1)) for x in c["a"]]
            if any(x is None for x in xs):
                return None
            return Vec(P.c(len(xs)), ("fill", ZERO), tuple((P.c(i), x) for i, x in enumerate(xs)))
        if "s" in c:
            o = c["s"]
            q = self.recname(ti)
            if "_M_len" in o and "_M_str" in o and o["_M_str"] and "l" in o["_M_str"]:
                l = o["_M_str"]["l"]
                n = int(o["_M_len"]["i"])
                if "str" in l:
                    return Str(l["str"][l["off"]:l["off"] + n])
                if n == 0:
                    return Str("")
                return None
            if "_M_elems" in o:
                r = self.p.records.get(self.p.ty(ti).get("r"))
                ft = r["fields"][0]["t"] if r and r["fields"] else -1
                return self.apv(o["_M_elems"], ft)
            r = self.p.records.get(self.p.ty(ti).get("r"))
            fs = {}
            for f in (r["fields"] if r else []):
                x = self.apv(o.get(f["n"]), f["t"])
                if x is None:
                    return None
                fs[f["n"]] = x
            return Rec(r["id"] if r else None, fs)
        if "l" in c:
            l = c["l"]
            if "str" in l:
                return Str(l["str"][l["off"]:])
            if l.get("null"):
                return NULL
        return None

    def fconst(self, s):
        try:
            return P.c(_frac(s))
        except Exception:
            return P.a(Sym("fconst", (s,), F80))

    def rv(self, st, v):
        """rvalue of an evaluated expression (reads through a location)"""
        if isinstance(v, Loc):
            return self.read(st, v)
        return v

    def unk(self, what):
        self.stats["unknown"][what] = self.stats["unknown"].get(what, 0) + 1

    def newroot(self, st, val, tag="t"):
        r = (tag, st.fresh())
        st.store[r] = self.settle(val, Loc(r))
        return Loc(r)

    # ------------------------------------------------------------ branching
    def branch(self, st, b):
        """[(state, bool)]"""
        if not isinstance(b, P):
            b = self.tobool(st, b)
        q = st.facts.query(b)
        if q is not None:
            return [(st, q)]
        if self.split_sel:
            r = self.branch_sel(st, b)
            if r is not None:
                return r
        self.stats["forks"] += 1
        self.nstates += 1
        if self.nstates > self.max_states:
            raise AnalysisBroken("state budget exceeded")
        t = st.fork()
        r = []
        if t.facts.assume(b, True):
            r.append((t, True))
        if st.facts.assume(b, False):
            r.append((st, False))
        return r

    def branch_sel(self, st, b):
        a = b.atom()
        if a is not None and a.op == "not":
            r = self.branch_sel(st, a.args[0])
            return None if r is None else [(s, not t) for s, t in r]
        for a in b.atoms() if a is None or a.op == "sel" else (a,):
            if a.op == "sel" and isinstance(a.args[0], Vec) and a.args[0].writes:
                w, out = a.args[0], []
                for s, eq in self.branch(st, c_eq(w.writes[-1][0], a.args[1], "i")):
                    x = w.writes[-1][1] if eq else self.elem(s, Vec(w.n, w.base, w.writes[:-1]), a.args[1])
                    if isinstance(x, Sym):
                        x = P.a(Sym(x.op, x.args, x.ty or a.ty))
                    if not isinstance(x, P):
                        return None
                    out += self.branch(s, self.tobool(s, b.subst(lambda y: x if y == a else None)))
                return out
        return None

    def tobool(self, st, v):
        if isinstance(v, P):
            c = v.const()
            if c is not None:
                return P.c(c != 0)
            a = v.atom()
            if a is not None and a.ty is BOOL:
                return v
            lo, hi = st.facts.bounds(v)
            if lo >= 0 and hi <= 1:
                return v
            return c_not(c_eq(v, ZERO, "i"))
        if v is NULL:
            return ZERO
        if isinstance(v, (Loc, Clo, Fn, Str)):
            return ONE
        if isinstance(v, Opt):
            return self.tobool(st, v.has)
        if isinstance(v, Rec):
            self.unk("bool-of-rec")
        if isinstance(v, Iter):
            return ONE
        return P.a(Sym("nonnull", (v,), BOOL))

    # ------------------------------------------------------------ arithmetic
    def fit(self, st, p, ty):
        """value p (mathematical) stored in integer type ty after arithmetic in that type"""
        if ty is None or ty.k != "i":
            return p
        c = p.const()
        if c is not None:
            if isinstance(c, Fraction):
                return p
            w = wrapc(c, ty)
            if w != c and ty.sg and self.oob == "stop":
                raise OutOfRange("signed integer overflow: %s" % c)
            return P.c(w)
        if ty.sg:
            return p  # signed overflow is undefined behaviour: mathematical value
        lo, hi = st.facts.bounds(p)
        r = ty.range()
        if lo >= 0 and hi <= r[1]:
            return p
        if st.facts.entails(c_le(ZERO, p, "i")) and st.facts.entails(c_le(p, P.c(r[1]), "i")):
            return p
        return P.a(Sym("wrap", (p, ty.w), ty))

    def unwrap(self, p, w):
        if any(a.op == "wrap" and a.args[1] == w for a in p.atoms()):
            return p.subst(lambda s: s.args[0] if s.op == "wrap" and s.args[1] == w else None)
        return p

    def castint(self, st, p, ty):
        if ty.k == "b":
            return self.tobool(st, p)
        c = p.const()
        if c is not None:
            return P.c(wrapc(c, ty))
        lo, hi = st.facts.bounds(p)
        r = ty.range()
        if lo >= r[0] and hi <= r[1]:
            return p
        if lo != -INF and hi != INF:  # the whole interval lies in one period
            k = (lo - r[0]) // (1 << ty.w)
            if k == (hi - r[0]) // (1 << ty.w) and not isinstance(k, float):
                return p - P.c(int(k) << ty.w)
        a = p.atom()
        if a is not None and a.op == "wrap" and a.args[1] <= ty.w:
            q = a.args[0]
            lo, hi = st.facts.bounds(q)
            if a.args[1] == ty.w and lo >= r[0] and hi <= r[1]:
                return q
            if ty.sg and a.args[1] == ty.w:
                # modular value read back as signed: exact iff in range
                if st.facts.entails(c_le(P.c(r[0]), q, "i")) and st.facts.entails(c_le(q, P.c(r[1]), "i")):
                    return q
        if not ty.sg:
            if a is not None and a.op == "cast" and a.args[1].w == ty.w:
                return self.fit(st, self.unwrap(a.args[0], ty.w), ty)
            return self.fit(st, self.unwrap(p, ty.w), ty)
        if ty.sg and a is None and all(isinstance(c, int) for c in p.t.values()):
            q = self.unwrap(p, ty.w)
            if q != p:
                lo, hi = st.facts.bounds(q)
                if lo >= r[0] and hi <= r[1]:
                    return q
        return P.a(Sym("cast", (p, ty), ty))

    def arith(self, st, op, a, b, ty):
        """binary arithmetic on polynomials in type ty"""
        F = st.facts
        if not isinstance(a, P) or not isinstance(b, P):
            return P.a(Sym("op" + op, (a, b), ty)) if ty else Sym("op" + op, (a, b))
        isf = ty is not None and ty.k == "f"
        uns = ty is not None and ty.k == "i" and not ty.sg
        ca, cb = a.const(), b.const()
        if op in "+-*" and len(op) == 1:
            if uns:
                a, b = self.unwrap(a, ty.w), self.unwrap(b, ty.w)
            ba, bb = F.bounds(a), F.bounds(b)
            r = a + b if op == "+" else a - b if op == "-" else a * b
            if len(r.t) > 300:
                return P.a(Sym("big" + op, (a, b), ty))
            if r.const() is None and (not isf or op == "*"):
                if op == "+":
                    lo, hi = ba[0] + bb[0], ba[1] + bb[1]
                elif op == "-":
                    lo, hi = ba[0] - bb[1], ba[1] - bb[0]
                else:
                    lo, hi = dom_mul(ba, bb)
                l0, h0 = F.bounds(r, 0)
                if lo > l0 or hi < h0:
                    F._add(r, lo=lo if lo > l0 and lo != -INF else None, hi=hi if hi < h0 and hi != INF else None)
            return self.fit(st, r, ty)
        if isf:
            if op == "/":
                if cb:
                    return a.scale(Fraction(1) / Fraction(cb))
            r = P.a(Sym("fdiv", (a, b), ty))
            if op != "/":
                return P.a(Sym("fop" + op, (a, b), ty))
            r = P.a(Sym("fdiv", (a, b), ty))
            sg = [1 if F.query(c_le(ZERO, x, "f")) is True else -1 if F.query(c_le(x, ZERO, "f")) is True else None for x in (a, b)]
            if None not in sg:
                F._add(r, **(dict(lo=0) if sg[0] * sg[1] > 0 else dict(hi=0)))
            return r
        if op in ("/", "%"):
            if cb == 0 and not self.quiet_div:
                st.ev = st.ev + [("ub", "division by zero")]
            if ca is not None and cb:
                q = tdiv(ca, cb)
                return P.c(q if op == "/" else ca - q * cb)
            if cb == 1:
                return a if op == "/" else ZERO
            bl, bh = F.bounds(b)
            al, ah = F.bounds(a)
            nonneg = al >= 0 or F.entails(c_le(ZERO, a, "i"))
            if nonneg and bl > 0 and (ah < bl or F.entails(c_lt(a, b, "i"))):
                return ZERO if op == "/" else a
            if cb is not None and cb > 0 and nonneg and (cb & (cb - 1)) == 0:
                k = cb.bit_length() - 1
                q = self.shr(st, a, k)
                if op == "/":
                    return q
                r = a - q.scale(cb)
                F._add(r, lo=0, hi=cb - 1) if r.const() is None else None
                return r
            s = Sym("div" if op == "/" else "mod", (a, b), ty)
            r = P.a(s)
            if s not in st.tags:
                st.tags[s] = 1
                if op == "%":
                    if bl > 0 or F.entails(c_lt(ZERO, b, "i")):
                        F._add(r - b, hi=-1)
                        if nonneg:
                            F._add(r, lo=0)
                            F._add(r - a, hi=0)
                        else:
                            F._add(r + b, lo=1)
                else:
                    if nonneg and (bl > 0 or F.entails(c_lt(ZERO, b, "i"))):
                        F._add(r, lo=0)
                        if cb is not None:
                            F._add(a - r.scale(cb), lo=0, hi=cb - 1)
                        else:
                            F._add(r - a, hi=0)
                            F._add(a - r * b, lo=0)
                            F._add(a - r * b - b, hi=-1)
            return r
        if op == "<<":
            if cb is not None and 0 <= cb < 128:
                return self.fit(st, (self.unwrap(a, ty.w) if uns else a).scale(1 << cb), ty)
            return P.a(Sym("shl", (a, b), ty)) if ca is None or cb is None else P.c(wrapc(ca << cb, ty))
        if op == ">>":
            if ca is not None and cb is not None:
                return P.c(ca >> cb)
            if cb is not None:
                return self.shr(st, a, cb)
            return P.a(Sym("shr", (a, b), ty))
        if op in ("&", "|", "^"):
            if ca is not None and cb is not None:
                return P.c(wrapc(ca & cb if op == "&" else ca | cb if op == "|" else ca ^ cb, ty))
            la, ha = F.bounds(a)
            lb, hb = F.bounds(b)
            if la >= 0 and ha <= 1 and lb >= 0 and hb <= 1:
                if op == "&":
                    return c_and(a, b)
                if op == "|":
                    return c_or(a, b)
                return c_not(c_eq(a, b, "i"))
            if op == "&":
                for x, m in ((a, cb), (b, ca)):
                    if m is not None and m >= 0 and (m & (m + 1)) == 0:
                        k = m.bit_length()
                        if k == 0:
                            return ZERO
                        r = x - self.shr(st, x, k).scale(1 << k)
                        if r.const() is None:
                            F._add(r, lo=0, hi=m)
                        return r
            if a == b:
                return a if op in "&|" else ZERO
            if op in "|^":
                for x, m in ((a, cb), (b, ca)):
                    # the bits of m are zero in a multiple of 2^k > m
                    if m is not None and m > 0 and x.t and all(isinstance(c, int) and c % (1 << m.bit_length()) == 0 for c in x.t.values()):
                        return self.fit(st, x + P.c(m), ty)
            nm = {"&": "band", "|": "bor", "^": "bxor"}[op]
            xs = []
            for x in (a, b):
                y = x.atom()
                work = [x]
                while work:
                    x = work.pop()
                    y = x.atom() if isinstance(x, P) else None
                    if y is not None and y.op == nm:
                        work.extend(y.args)
                    else:
                        xs.append(x)
            if op == "^":
                xs = _xorcancel(xs)
            xs = sorted(xs, key=lambda z: (z.const() is None, repr(z)))
            r = xs[0]
            for y in xs[1:]:
                r = P.a(Sym(nm, (r, y), ty))
            return r
        return P.a(Sym("op" + op, (a, b), ty))

    def shr(self, st, a, k):
        """floor(a / 2^k), normalised: integer multiples of 2^k are pulled out, nested shifts fuse"""
        F = st.facts
        if k == 0:
            return a
        lo, hi = F.bounds(a)
        M = 1 << k
        if lo >= 0 and hi < M:
            return ZERO
        a0 = a
        # fuse inner shifts with coefficient 1: shr(shr(x,j)+b, k) = shr(x + b*2^j, k+j)
        for m, c in list(a.t.items()):
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "shrk" and c == 1 and all(isinstance(x, int) for x in a.t.values()):
                s = m[0][0]
                j = s.args[1]
                rest = a - P.a(s)
                return self.shr(st, s.args[0] + rest.scale(1 << j), k + j)
        out, rem = {}, {}
        for m, c in a.t.items():
            if isinstance(c, int):
                q = c // M
                r = c - q * M
                if m and r > M // 2:   # balanced remainder keeps representation canonical
                    q, r = q + 1, r - M
                if q:
                    out[m] = q
                if r:
                    rem[m] = r
            else:
                rem[m] = c
        q, r = P(out), P(rem)
        c = r.const()
        if c is not None:
            return q + P.c(c // M)
        s = Sym("shrk", (r, k), NumTy("i", 128, True))
        res = P.a(s)
        F._add(r - res.scale(M), lo=0, hi=M - 1)
        l, h = F.bounds(r)
        F._add(res, lo=(l // M if l != -INF else None), hi=(h // M if h != INF else None))
        tot = q + res
        if lo != -INF or hi != INF:
            if tot.const() is None:
                F._add(tot, lo=(lo // M if lo != -INF else None), hi=(hi // M if hi != INF else None))
        # multiply-shift lemma: 0 <= x < 2^k, s >= 1  =>  floor(x*s/2^k) <= s-1
        if len(r.t) >= 1 and not q.t:
            self.mulshift(st, r, k, res)
        return tot

    def mulshift(self, st, r, k, res):
        F = st.facts
        common = None
        for m in r.t:
            at = {s for s, e in m if e == 1}
            common = at if common is None else common & at
        for x in common or ():
            l, h = F.abounds(x)
            if l >= 0 and h < (1 << k):
                fac = {}
                for m, c in r.t.items():
                    fac[tuple(y for y in m if y[0] is not x)] = c
                fac = P(fac)
                if F.entails(c_le(ONE, fac, "i")):
                    F._add(res - fac, hi=-1)
                    F._add(res, lo=0)

    def compare(self, st, op, a, b, fl):
        k = "f" if fl else "i"
        if isinstance(a, P) and isinstance(b, P):
            if not fl:
                x = xordiff(a, b)
                if x is not None:
                    if op in ("==", "!="):
                        a, b = x
                    elif st.facts.query(c_eq(x[0], x[1], "i")) is False:
                        st.facts.assume(c_not(c_eq(a, b, "i")))
            if op == "==":
                return c_eq(a, b, k)
            if op == "!=":
                return c_not(c_eq(a, b, k))
            if op == "<":
                return c_lt(a, b, k)
            if op == "<=":
                return c_le(a, b, k)
            if op == ">":
                return c_lt(b, a, k)
            return c_le(b, a, k)
        if op in ("==", "!="):
            e = self.same(st, a, b)
            return e if op == "==" else c_not(e)
        if isinstance(a, Iter) and isinstance(b, Iter) and a.loc == b.loc:
            x, y = (b.idx, a.idx) if a.rev else (a.idx, b.idx)
            return self.compare(st, op, x, y, False)
        if op in (">", "<="):
            r = self.less(st, b, a)
            return r if op == ">" else c_not(r)
        r = self.less(st, a, b)
        return r if op == "<" else c_not(r)

    def less(self, st, a, b):
        """a < b for objects; pairs and tuples compare lexicographically"""
        if isinstance(a, P) and isinstance(b, P):
            fl = any(isinstance(s.ty, NumTy) and s.ty.k == "f" for x in (a, b) for s in x.atoms())
            return c_lt(a, b, "f" if fl else "i")
        if isinstance(a, Rec) and isinstance(b, Rec) and a.cls == b.cls and a.cls in ("pair", "tuple") and a.base is None and b.base is None and a.fields.keys() == b.fields.keys():
            ks = ["first", "second"] if a.cls == "pair" else sorted(a.fields, key=int)
            r = ZERO
            for k in reversed(ks):
                x, y = a.fields[k], b.fields[k]
                r = c_or(self.less(st, x, y), c_and(c_not(self.less(st, y, x)), r)) if k != ks[-1] else self.less(st, x, y)
            return r
        return P.a(Sym("less", (a, b), BOOL))

    def same(self, st, a, b):
        if isinstance(a, Iter) and isinstance(b, Iter):
            if a.loc == b.loc:
                return c_eq(a.idx, b.idx, "i")
        if isinstance(a, P) and isinstance(b, P):
            a, b = xordiff(a, b) or (a, b)
            return c_eq(a, b, "i")
        if a == b and not isinstance(a, (_Opq,)):
            return ONE
        consts = (Str, Loc, type(NULL), Fn)
        if isinstance(a, consts) and isinstance(b, consts):
            if isinstance(a, Loc) and isinstance(b, Loc) and a.root == b.root and a.path and b.path and len(a.path) == len(b.path):
                if isinstance(a.path[-1], tuple) and isinstance(b.path[-1], tuple) and a.path[:-1] == b.path[:-1]:
                    return c_eq(a.path[-1][1], b.path[-1][1], "i")
            return ZERO
        if a is NULL or b is NULL:
            o = b if a is NULL else a
            if isinstance(o, (Clo, Vec, Rec, Iter)):
                return ZERO
            return c_not(P.a(Sym("nonnull", (o,), BOOL)))
        if isinstance(a, Rec) and isinstance(b, Rec) and a.base is None and b.base is None and a.fields.keys() == b.fields.keys():
            r = ONE
            for f in a.fields:
                r = c_and(r, self.same(st, a.fields[f], b.fields[f]))
            return r
        if isinstance(b, Str):
            a, b = b, a
        if isinstance(a, Str) and isinstance(b, Sym) and b.ty is None:
            lo, hi = st.facts.bounds(P.a(Sym("size", (b,), U64)))
            if not lo <= len(a.s) <= hi:
                return ZERO
        x, y = sorted((a, b), key=repr)
        return P.a(Sym("same", (x, y), BOOL))

    # ------------------------------------------------------------ expressions
    def evs(self, es, st, fr):
        """evaluate a list of expressions left to right -> [(st, [vals])]"""
        outs = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in outs:
                if s.ab:
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev(e, s, fr):
                    nxt.append((s2, vs + [v]))
            outs = nxt
        return outs

    def ev(self, e, st, fr):
        cv = e.get("cv")
        if cv is not None:
            return [(st, P.c(int(cv)))]
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            self.unk("expr:" + e["k"] + ":" + str(e.get("c")))
            v = Sym("unk", (e["k"], st.fresh()))
            return [(st, self.typed(v, e.get("t", -1)))]
        return m(e, st, fr)

    def ev1(self, e, st, fr, fn):
        """evaluate e, then fn(st, val) -> list"""
        out = []
        for s, v in self.ev(e, st, fr):
            if s.ab:
                out.append((s, None))
            else:
                r = fn(s, v)
                out.extend(r if isinstance(r, list) else [(s, r)])
        return out

    def e_int(self, e, st, fr):
        return [(st, P.c(int(e.get("cv", 0))))]

    e_const = e_int

    def e_float(self, e, st, fr):
        return [(st, self.fconst(e["v"]))]

    def e_str(self, e, st, fr):
        return [(st, Str(e["v"]))]

    def e_null(self, e, st, fr):
        return [(st, NULL)]

    def e_this(self, e, st, fr):
        return [(st, fr.this if fr.this is not None else Sym("this"))]

    def varloc(self, st, fr, d):
        if d in fr.caps:
            l = fr.caps[d]
        else:
            l = Loc(("v", fr.id, d))
        return l

    def e_ref(self, e, st, fr):
        dk = e["dk"]
        if dk == "func":
            return [(st, Fn(e["d"]))]
        if dk == "gvar":
            l = Loc(("g", e["d"]))
            v = self.rawroot(st, l.root)
            if isinstance(v, RefV):
                return [(st, v.loc)]
            return [(st, l)]
        if dk in ("var", "param", "bind", "other"):
            l = self.varloc(st, fr, e["d"])
            if not isinstance(l, Loc):
                return [(st, l)]
            v = st.store.get(l.root) if not l.path else None
            if isinstance(v, RefV):
                return [(st, v.loc)]
            return [(st, l)]
        return [(st, Sym("ref", (e["n"],)))]

    def e_mem(self, e, st, fr):
        def f(s, b):
            if isinstance(b, RefV):
                b = b.loc
            if e["arrow"]:
                b = self.ptrloc(s, b)
            if not isinstance(b, Loc):
                b = self.newroot(s, b)
            l = b.sub(e["n"])
            cur = self.rawroot(s, l.root)
            for x in l.path:
                cur = self.select(s, cur, x)
            if isinstance(cur, RefV):
                return cur.loc
            return l
        return self.ev1(e["b"], st, fr, f)

    def ptrloc(self, st, p):
        """location a pointer value designates"""
        if isinstance(p, Loc):
            return p
        if isinstance(p, Iter):
            return p.loc.sub(("i", p.idx)) if isinstance(p.loc, Loc) else self.newroot(st, self.elem(st, p.loc, p.idx))
        if isinstance(p, Str):
            r = ("strlit", p.s)
            st.store[r] = p
            return Loc(r, (("i", ZERO),))
        return Loc(("deref", p))

    def e_load(self, e, st, fr):
        def f(s, l):
            if isinstance(l, Loc):
                v = self.read(s, l)
                if v is UNINIT:
                    self.on_uninit(s, l, e, fr)
            else:
                v = l
            return self.typed(v, e["t"])
        return self.ev1(e["e"], st, fr, f)

    def on_uninit(self, st, loc, e, fr):
        st.ev.append(("uninit", loc, e.get("ln")))

    def e_tmp(self, e, st, fr):
        def f(s, v):
            if isinstance(v, Loc) and e["e"].get("lv"):
                return v
            return self.newroot(s, v)
        return self.ev1(e["e"], st, fr, f)

    def e_un(self, e, st, fr):
        op = e["op"]
        if op == "*":
            return self.ev1(e["e"], st, fr, lambda s, v: self.ptrloc(s, v))
        if op == "&":
            def g(s, v):
                if isinstance(v, Loc) and v.path and isinstance(v.path[-1], tuple) and v.path[-1][0] == "i":
                    return Iter(Loc(v.root, v.path[:-1]), v.path[-1][1])
                return v
            return self.ev1(e["e"], st, fr, g)
        if op in ("++", "--"):
            def f(s, l):
                old = self.typed(self.rv(s, l), e["t"])
                new = self.step(s, old, 1 if op == "++" else -1, self.nty(e["t"]))
                self.write(s, l, new)
                return old if e.get("post") else (l if e.get("lv") else new)
            return self.ev1(e["e"], st, fr, f)
        ty = self.nty(e["t"])

        def h(s, v):
            v = self.rv(s, v)
            if op == "!":
                return c_not(self.tobool(s, v))
            if op == "-":
                if isinstance(v, P):
                    x = self.unwrap(v, ty.w) if ty and ty.k == "i" and not ty.sg else v
                    return self.fit(s, -x, ty)
                return Sym("neg", (v,))
            if op == "+":
                return v
            if op == "~" and isinstance(v, P):
                x = self.unwrap(v, ty.w) if ty and not ty.sg else v
                return self.fit(s, -x - ONE, ty)
            if op in ("__extension__", "__real", "__imag"):
                return v
            self.unk("un" + op)
            return self.typed(Sym("un" + op, (v,)), e["t"])
        return self.ev1(e["e"], st, fr, h)

    def step(self, st, v, k, ty):
        if isinstance(v, P):
            return self.arith(st, "+", v, P.c(k), ty) if k > 0 or (ty and ty.k == "f") else self.arith(st, "-", v, P.c(-k), ty)
        if isinstance(v, Iter):
            return Iter(v.loc, v.idx + P.c(-k if v.rev else k), v.rev)
        if isinstance(v, Str):
            return Str(v.s[k:]) if k >= 0 else Sym("strback", (v, k))
        return Sym("step", (v, k))

    def padd(self, st, v, p):
        """pointer/iterator + integer"""
        if isinstance(v, Iter):
            return Iter(v.loc, v.idx - p if v.rev else v.idx + p, v.rev)
        if isinstance(v, Str) and p.const() is not None and p.const() >= 0:
            return Str(v.s[p.const():])
        if isinstance(v, Loc):
            if v.path and isinstance(v.path[-1], tuple) and v.path[-1][0] == "i":
                return Iter(Loc(v.root, v.path[:-1]), v.path[-1][1] + p)
            return Iter(v, p)
        if isinstance(v, Sym):
            if v.op == "padd":
                return Sym("padd", (v.args[0], v.args[1] + p))
            return Sym("padd", (v, p))
        return Sym("padd", (v, p))

    def pdiff(self, st, a, b):
        if isinstance(a, Iter) and isinstance(b, Iter) and a.loc == b.loc:
            return b.idx - a.idx if a.rev else a.idx - b.idx
        return P.a(Sym("pdiff", (a, b), I64))

    def e_bin(self, e, st, fr):
        op = e["op"]
        if op in ("&&", "||"):
            out = []
            for s, v in self.ev(e["l"], st, fr):
                if s.ab:
                    out.append((s, None))
                    continue
                for s2, t in self.branch(s, self.tobool(s, self.rv(s, v))):
                    if t == (op == "||"):
                        out.append((s2, P.c(t)))
                    else:
                        for s3, v3 in self.ev(e["r"], s2, fr):
                            out.append((s3, None if s3.ab else self.tobool(s3, self.rv(s3, v3))))
            return out
        if op == ",":
            out = []
            for s, v in self.ev(e["l"], st, fr):
                if s.ab:
                    out.append((s, None))
                else:
                    out.extend(self.ev(e["r"], s, fr))
            return out
        if op == "=":
            out = []
            for s, vs in self.evs([e["r"], e["l"]], st, fr):
                if s.ab:
                    out.append((s, None))
                    continue
                v = self.rv(s, vs[0]) if not (self.p.ty(e["r"]["t"])["k"] == "ptr") else vs[0]
                self.write(s, vs[1], v)
                out.append((s, vs[1]))
            return out
        out = []
        tl, tr = self.p.ty(e["l"]["t"]), self.p.ty(e["r"]["t"])
        isptr = tl["k"] in ("ptr", "arr", "nullptr") or tr["k"] in ("ptr", "arr", "nullptr")
        for s, vs in self.evs([e["l"], e["r"]], st, fr):
            if s.ab:
                out.append((s, None))
                continue
            a, b = vs
            if not isptr:
                a, b = self.rv(s, a), self.rv(s, b)
            out.append((s, self.binop(s, op, a, b, e["t"], tl, tr)))
        return out

    def binop(self, s, op, a, b, t, tl, tr):
        if op in ("==", "!=", "<", "<=", ">", ">="):
            return self.compare(s, op, a, b, tl["k"] == "float" or tr["k"] == "float")
        if op == "<=>":
            return Sym("cmp3", (a, b))
        if tl["k"] == "ptr" or tr["k"] == "ptr":
            if op == "+":
                return self.padd(s, a, b) if isinstance(b, P) else self.padd(s, b, a)
            if op == "-":
                if isinstance(b, P):
                    return self.padd(s, a, -b)
                return self.pdiff(s, a, b)
        return self.arith(s, op, a, b, self.nty(t))

    def e_cas(self, e, st, fr):
        op = e["op"][:-1]
        ty = self.nty(e["t"])
        ct = self.nty(e["ct"])
        out = []
        for s, vs in self.evs([e["r"], e["l"]], st, fr):
            if s.ab:
                out.append((s, None))
                continue
            r, l = self.rv(s, vs[0]), vs[1]
            old = self.typed(self.rv(s, l), e["t"])
            if isinstance(old, P) and isinstance(r, P):
                lt = self.nty(e["clt"])
                o2 = self.conv(s, old, ty, lt)
                v = self.arith(s, op, o2, r, ct)
                v = self.conv(s, v, ct, ty)
            elif isinstance(r, P) and op in "+-":
                v = self.padd(s, old, r if op == "+" else -r)
            else:
                v = self.typed(Sym("op" + op, (old, r)), e["t"])
            self.write(s, l, v)
            out.append((s, l))
        return out

    def conv(self, st, v, frm, to):
        if frm is to or not isinstance(v, P) or to is None or frm is None:
            return v
        if to.k == "f":
            return v
        if frm.k == "f":
            c = v.const()
            if to.k == "b":
                return c_not(c_eq(v, ZERO, "f"))
            if c is not None:
                return P.c(int(c))
            r = P.a(Sym("f2i", (v,), to))
            F = st.facts
            for sg in (1, -1):
                if F.query(c_le(ZERO, v.scale(sg), "f")) is True:
                    F._add(r.scale(sg), lo=0)
                    F._add((v - r).scale(sg), lo=0, hi=1, his=True)
                    # q*x with 0 <= x <= 1 is at most q
                    for x in sorted(set.intersection(*[{s for s, e in m if e == 1} for m in v.t]) if v.t else (), key=repr):
                        l, h = F.abounds(x)
                        if l >= 0 and h <= 1:
                            q = P({tuple(y for y in m if y[0] is not x): c for m, c in v.t.items()})
                            if F.query(c_le(ZERO, q.scale(sg), "i")) is True:
                                F._add((q - r).scale(sg), lo=0)
            return r
        if frm.k == "i" and to.k == "i" and frm.sg and to.sg and to.w >= frm.w:
            return v    # signed arithmetic stays in its range, anything else is undefined
        return self.castint(st, v, to)

    def e_cond(self, e, st, fr):
        out = []
        for s, v in self.ev(e["c"], st, fr):
            if s.ab:
                out.append((s, None))
                continue
            for s2, t in self.branch(s, self.tobool(s, self.rv(s, v))):
                x = e["a"] if t else e["b"]
                out.extend(self.ev(x, s2, fr))
        return out

    def e_cast(self, e, st, fr):
        ck = e["ck"]

        def f(s, v):
            if ck in ("IntegralCast", "IntegralToBoolean", "BooleanToSignedIntegral"):
                v = self.rv(s, v)
                if not isinstance(v, P):
                    v = self.typed(v, e["e"]["t"])
                    if not isinstance(v, P):
                        return self.typed(Sym("cast", (v, e["t"])), e["t"])
                frm, to = self.nty(e["e"]["t"]), self.nty(e["t"])
                return self.conv(s, v, frm, to) if frm is not None and frm.k == "i" else self.castint(s, v, to)
            if ck in ("IntegralToFloating", "FloatingCast"):
                return self.rv(s, v)
            if ck in ("FloatingToIntegral", "FloatingToBoolean"):
                v = self.rv(s, v)
                return self.conv(s, v, F80, self.nty(e["t"])) if isinstance(v, P) else self.typed(Sym("f2i", (v,)), e["t"])
            if ck in ("PointerToBoolean", "MemberPointerToBoolean"):
                return self.tobool(s, v)
            if ck == "NullToPointer":
                return NULL
            if ck == "ArrayToPointerDecay":
                if isinstance(v, Str):
                    return v
                if isinstance(v, Loc):
                    c = self.read(s, v)
                    if isinstance(c, Str) and self.p.ty(e["e"]["t"]).get("k") == "arr" and v.root[0] in ("t",):
                        return c
                    return Iter(v, ZERO)
                return v
            if ck == "ToVoid":
                return VOID
            if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "BitCast", "LValueBitCast", "Dynamic", "ConstructorConversion"):
                return v
            if ck == "PointerToIntegral":
                return P.a(Sym("ptr2int", (v,), self.nty(e["t"])))
            if ck in ("BuiltinFnToFnPtr",):
                return v
            self.unk("cast:" + ck)
            return self.typed(Sym("cast:" + ck, (self.rv(s, v),)), e["t"])
        return self.ev1(e["e"], st, fr, f)

    def e_idx(self, e, st, fr):
        out = []
        for s, vs in self.evs([e["l"], e["r"]], st, fr):
            if s.ab:
                out.append((s, None))
                continue
            b, i = vs
            i = self.rv(s, i)
            if isinstance(b, P):
                b, i = i, b
            p = self.padd(s, b, i) if not isinstance(b, Str) else Iter(self.newroot(s, b), i)
            out.append((s, self.ptrloc(s, p)))
        return out

    def e_init(self, e, st, fr):
        t = self.p.ty(e["t"])
        out = []
        if t["k"] == "rec":
            r = self.p.records.get(t["r"])
            fs = [f for f in r["fields"]]
            nb = len(r.get("bases", []))
            for s, vs in self.evs(e["es"], st, fr):
                if s.ab:
                    out.append((s, None))
                    continue
                if norm(t["q"]) == "std::array":
                    v = self.rv(s, vs[0]) if vs else Vec(ZERO, ("fill", ZERO))
                    out.append((s, v))
                    continue
                d = {}
                for i, v in enumerate(vs[nb:]):
                    if i < len(fs):
                        d[fs[i]["n"]] = RefV(v) if self.isref(fs[i]["t"]) else self.rvf(s, v, fs[i]["t"])
                out.append((s, Rec(t["r"], d)))
            return out
        if t["k"] == "arr":
            for s, vs in self.evs(e["es"], st, fr):
                if s.ab:
                    out.append((s, None))
                    continue
                xs = [self.rvf(s, v, t["p"]) for v in vs]
                if len(xs) == 1 and isinstance(xs[0], Str) and self.p.ty(t["p"]).get("ch"):
                    out.append((s, xs[0]))
                    continue
                fill = self.zero(t["p"])
                out.append((s, Vec(P.c(t["n"]), ("fill", fill), tuple((P.c(i), x) for i, x in enumerate(xs)))))
            return out
        if len(e["es"]) == 1:
            return self.ev(e["es"][0], st, fr)
        if not e["es"]:
            return [(st, self.zero(e["t"]))]
        self.unk("init")
        return [(st, Sym("init", (st.fresh(),)))]

    def rvf(self, st, v, ti):
        """value to store in an object of type ti"""
        if self.p.ty(ti)["k"] == "ptr":
            return v
        return self.rv(st, v)

    def zero(self, ti):
        t = self.p.ty(ti)
        if t["k"] in ("int", "bool", "enum", "float"):
            return ZERO
        if t["k"] in ("ptr", "nullptr"):
            return NULL
        if t["k"] == "arr":
            return Vec(P.c(t["n"]), ("fill", self.zero(t["p"])))
        if t["k"] == "rec":
            q = norm(t["q"])
            if q == "std::array":
                r = self.p.records.get(t["r"]) or {}
                ta = r.get("ta") or t.get("ta") or []
                if len(ta) == 2 and "t" in ta[0] and str(ta[1].get("i", "")).isdigit():
                    return Vec(P.c(int(ta[1]["i"])), ("fill", self.zero(ta[0]["t"])))
            from models import default_value
            v = default_value(self, t, q)
            if v is not None:
                return v
            r = self.p.records.get(t["r"])
            if r:
                return Rec(t["r"], {f["n"]: self.zero(f["t"]) for f in r["fields"]})
        return Sym("zero", (t.get("s", "?"),))

    def e_zero(self, e, st, fr):
        return [(st, self.zero(e["t"]))]

    def e_inilist(self, e, st, fr):
        return self.ev1(e["e"], st, fr, lambda s, v: self.rv(s, v))

    def e_lambda(self, e, st, fr):
        outs = [(st, [], None)]
        for c in e["caps"]:
            nxt = []
            for s, caps, th in outs:
                if s.ab:
                    nxt.append((s, caps, th))
                    continue
                if c["by"] in ("this", "starthis"):
                    nxt.append((s, caps, fr.this))
                    continue
                if c["by"] == "ref":
                    if c.get("i") is not None:
                        for s2, v in self.ev(c["i"], s, fr):
                            nxt.append((s2, caps + [(c["d"], v)], th))
                    else:
                        l = self.varloc(s, fr, c["d"])
                        v = s.store.get(l.root)
                        nxt.append((s, caps + [(c["d"], v.loc if isinstance(v, RefV) else l)], th))
                else:
                    if c.get("i") is not None:
                        for s2, v in self.ev(c["i"], s, fr):
                            if s2.ab:
                                nxt.append((s2, caps, th))
                                continue
                            ft = c.get("ft", -1)
                            x = v if self.p.ty(ft)["k"] in ("ptr", "ref", "rref") else self.rv(s2, v)
                            if self.isref(ft) and isinstance(v, Loc):
                                nxt.append((s2, caps + [(c["d"], v)], th))
                            else:
                                nxt.append((s2, caps + [(c["d"], self.newroot(s2, x, "cap"))], th))
                    else:
                        v = self.read(s, self.varloc(s, fr, c["d"]))
                        nxt.append((s, caps + [(c["d"], self.newroot(s, v, "cap"))], th))
            outs = nxt
        return [(s, Clo(e.get("op"), tuple(caps) + tuple((d, l) for d, l in fr.caps.items()), th if th is not None else fr.this, tuple(e.get("specs", ())))) for s, caps, th in outs]

    def e_throw(self, e, st, fr):
        if e.get("e") is None:
            st.ab = ("throw", "rethrow", None, e["ln"])
            return [(st, None)]
        out = []
        for s, v in self.ev(e["e"], st, fr):
            if not s.ab:
                s.ab = ("throw", self.p.ts(e["tt"]), self.rv(s, v), e["ln"])
            out.append((s, None))
        return out

    def e_new(self, e, st, fr):
        if e.get("i") is None:
            return [(st, self.newroot(st, Sym("new", (st.fresh(),)), "heap"))]
        return self.ev1(e["i"], st, fr, lambda s, v: self.newroot(s, self.rv(s, v), "heap"))

    def e_del(self, e, st, fr):
        return self.ev1(e["e"], st, fr, lambda s, v: VOID)

    def e_mfn(self, e, st, fr):
        return self.ev1(e["b"], st, fr, lambda s, v: Sym("boundfn", (e["n"],)))

    def e_unk(self, e, st, fr):
        self.unk("unk:" + str(e.get("c")))
        out = []
        for s, vs in self.evs(e.get("ch", []), st, fr):
            out.append((s, self.typed(Sym("unk", (e.get("c", "?"), s.fresh())), e.get("t", -1))))
        return out

    def e_inhctor(self, e, st, fr):
        return [(st, Sym("inhctor", (e["f"],)))]

    # ------------------------------------------------------------ construction
    def construct(self, e, st, fr, loc):
        """evaluate initialiser e into loc -> [st]"""
        if e is None:
            return [st]
        if e["k"] == "ctor":
            f = self.p.funcs.get(e["f"])
            if f is not None and f.get("repo") and f.get("body") is not None and norm(f["q"]) not in self.hooks \
                    and not ((f.get("copyctor") or f.get("movector")) and (f.get("defaulted") or f.get("implicit"))):
                out = []
                for s, vs in self.evs(e["as"], st, fr):
                    if s.ab:
                        out.append(s)
                        continue
                    out.extend(self.run_ctor(s, f, loc, vs, fr, e))
                return out
        out = []
        for s, v in self.ev(e, st, fr):
            if not s.ab:
                self.write_init(s, loc, v, e)
            out.append(s)
        return out

    def write_init(self, s, loc, v, e):
        t = self.p.ty(e["t"])
        if not (t["k"] == "ptr" or e.get("lv")):
            v = self.rv(s, v) if t["k"] != "ptr" else v
        if isinstance(v, Loc) and t["k"] != "ptr":
            v = self.rv(s, v)
        if loc.path:
            self.write(s, loc, v)
        else:
            s.store[loc.root] = self.settle(v, loc)

    def run_ctor(self, st, f, loc, args, fr, node):
        """run a repo constructor on the object at loc"""
        self.stats["calls"] += 1
        self.stats["inlined"].add(f["id"])
        rid = f["cls"]
        if fr.depth > self.maxdepth:
            st.ab = ("cut", "depth")
            return [st]
        rec = self.p.records[rid]
        cur = self.rawroot(st, loc.root) if not loc.path else None
        if not node.get("asbase"):
            obj = Rec(rid, self.uninit_fields(rid))
            if loc.path:
                self.write(st, loc, obj)
            else:
                st.store[loc.root] = obj
        fid = ("f", st.fresh())
        nf = Frame(fid, f, loc, None, fr.depth + 1)
        self.bind_params(st, f, args, nf)
        states = [st]
        for i in f.get("inits", []):
            nxt = []
            for s in states:
                if s.ab:
                    nxt.append(s)
                    continue
                if "m" in i:
                    tgt = loc.sub(i["m"])
                    if i["e"] is None:
                        nxt.append(s)
                    elif self.isref(i["mt"]):
                        for s2, v in self.ev(i["e"], s, nf):
                            if not s2.ab:
                                self.setraw(s2, tgt, RefV(v) if isinstance(v, Loc) else v)
                            nxt.append(s2)
                    else:
                        nxt.extend(self.construct(i["e"], s, nf, tgt))
                else:
                    ee = i["e"]
                    if ee is None:
                        nxt.append(s)
                        continue
                    if ee["k"] == "ctor":
                        bf = self.p.funcs.get(ee["f"])
                        if bf is not None and bf.get("repo") and bf.get("body") is not None:
                            for s2, vs in self.evs(ee["as"], s, nf):
                                if s2.ab:
                                    nxt.append(s2)
                                else:
                                    n2 = dict(ee)
                                    n2["asbase"] = 1
                                    nxt.extend(self.run_ctor(s2, bf, loc, vs, nf, n2))
                            continue
                        for s2, vs in self.evs(ee["as"], s, nf):
                            if not s2.ab:
                                self.base_ctor(s2, bf, loc, vs, ee)
                            nxt.append(s2)
                        continue
                    if ee["k"] == "inhctor":
                        bf = self.p.funcs.get(ee["f"])
                        if bf is not None and bf.get("body") is not None:
                            nxt.extend(self.run_ctor(s, bf, loc, args, nf, {"asbase": 1, "ln": 0}))
                            continue
                    nxt.append(s)
            states = nxt
        out = []
        for s in states:
            if s.ab:
                out.append(s)
                continue
            for s2 in self.exec(f["body"], s, nf):
                if s2.ab and s2.ab[0] == "ret":
                    s2.ab = None
                out.append(s2)
        return out

    def setraw(self, st, loc, v):
        root = self.rawroot(st, loc.root)

        def up(x, path):
            if not path:
                return v
            if not isinstance(x, Rec):
                x = Rec(None, {}, x)
            sub = x.get(path[0])
            return x.set(path[0], up(sub, path[1:]) if len(path) > 1 else v)
        st.store[loc.root] = up(root, loc.path) if loc.path else v

    def base_ctor(self, st, bf, loc, vs, ee):
        st.ev.append(("basector", norm(bf["q"]) if bf else "?", tuple(self.rv(st, v) for v in vs)))

    def uninit_fields(self, rid):
        d = {}
        rec = self.p.records.get(rid)
        if not rec:
            return d
        for b in rec.get("bases", []):
            t = self.p.ty(b)
            if t["k"] == "rec":
                r2 = self.p.records.get(t["r"])
                if r2 and r2.get("repo"):
                    d.update(self.uninit_fields(t["r"]))
        for f in rec["fields"]:
            t = self.p.ty(f["t"])
            if t["k"] == "rec":
                from models import default_value
                v = default_value(self, t, norm(t["q"]))
                if v is None:
                    r2 = self.p.records.get(t["r"])
                    v = Rec(t["r"], self.uninit_fields(t["r"])) if r2 and r2.get("repo") else Sym("dflt", (norm(t["q"]),))
                d[f["n"]] = v
            elif t["k"] == "arr":
                d[f["n"]] = Vec(P.c(t["n"]), ("fill", UNINIT))
            else:
                d[f["n"]] = UNINIT
        return d

    def e_ctor(self, e, st, fr):
        f = self.p.funcs.get(e["f"])
        out = []
        for s, vs in self.evs(e["as"], st, fr):
            if s.ab:
                out.append((s, None))
                continue
            out.extend(self.do_ctor(s, f, vs, e, fr))
        return out

    def do_ctor(self, st, f, vs, e, fr):
        t = self.p.ty(e["t"])
        q = norm(t.get("q", t.get("s", "?")))
        hk = self.hooks.get(norm(f["q"])) if f else None
        if hk:
            r = hk(self, st, f, None, vs, e, fr)
            if r is not None:
                return r
        if f and (f.get("copyctor") or f.get("movector")) and (f.get("body") is None or f.get("defaulted") or not f.get("repo")):
            v = self.rv(st, vs[0])
            if f.get("copyctor") and isinstance(v, Rec) and v.cls in self.selfref and isinstance(vs[0], Loc):
                v = rebase(v, SELF, vs[0])   # memberwise copies keep pointing into the original
            if f.get("movector") and isinstance(vs[0], Loc):
                from models import moved_from
                w = moved_from(self, st, v, e["t"])
                if w is not v:
                    self.write(st, vs[0], w)
            return [(st, v)]
        if f and f.get("repo") and f.get("body") is not None:
            loc = self.newroot(st, UNINIT, "obj")
            out = []
            for s in self.run_ctor(st, f, loc, vs, fr, e):
                out.append((s, None if s.ab else self.read(s, loc)))
            return out
        from models import construct_std
        r = construct_std(self, st, q, f, vs, e, fr)
        if r is not None:
            return r if isinstance(r, list) else [(st, r)]
        if f and f.get("repo"):
            rec = self.p.records[f["cls"]]
            if not vs:
                fs = self.uninit_fields(f["cls"])
                if e.get("zi"):
                    fs = {x["n"]: self.zero(x["t"]) for x in rec["fields"]}
                outs = [(st, fs)]
                for i in f.get("inits", []):
                    if "m" in i and i.get("e") is not None:
                        nxt = []
                        for s, d in outs:
                            for s2, v in self.ev(i["e"], s, Frame(("f", s.fresh()), f, None, None, fr.depth + 1)):
                                d2 = dict(d)
                                if not s2.ab:
                                    d2[i["m"]] = self.rvf(s2, v, i["mt"])
                                nxt.append((s2, d2))
                        outs = nxt
                for x in rec["fields"]:
                    if x.get("init") is not None and not any(i.get("m") == x["n"] for i in f.get("inits", [])):
                        nxt = []
                        for s, d in outs:
                            for s2, v in self.ev(x["init"], s, Frame(("f", s.fresh()), f, None, None, fr.depth + 1)):
                                d2 = dict(d)
                                if not s2.ab:
                                    d2[x["n"]] = self.rvf(s2, v, x["t"])
                                nxt.append((s2, d2))
                        outs = nxt
                return [(s, Rec(f["cls"], d)) for s, d in outs]
            if len(vs) == 1:
                return [(st, self.rv(st, vs[0]))]
        args = tuple(self.rv(st, v) for v in vs)
        return [(st, Sym("ctor", (q,) + args))]

    # ------------------------------------------------------------ calls
    def bind_params(self, st, f, args, nf):
        for i, p in enumerate(f["ps"]):
            root = ("v", nf.id, p["d"])
            if i < len(args):
                v = args[i]
            elif p.get("def") is not None:
                rs = self.ev(p["def"], st, nf)
                v = rs[0][1]
            else:
                v = Sym("arg", (p["n"],))
            self.vty[root] = p["t"]
            if self.isref(p["t"]):
                if isinstance(v, RefV):
                    v = v.loc
                st.store[root] = RefV(v) if isinstance(v, Loc) else RefV(self.newroot(st, v))
            else:
                if isinstance(v, Loc) and self.p.ty(p["t"])["k"] != "ptr":
                    v = self.rv(st, v)
                st.store[root] = self.settle(self.typed(v, p["t"]), Loc(root))

    def e_call(self, e, st, fr):
        f = self.p.funcs.get(e.get("f")) if e.get("f") else None
        es = []
        if e.get("obj") is not None:
            es.append(e["obj"])
        elif e.get("ce") is not None:
            es.append(e["ce"])
        es = es + e["as"]
        if e.get("oc") in ("=", "+=", "-=", "*=", "/=", "<<=", ">>=", "^=", "|=", "&=") and len(es) == 2:
            # assignment operators sequence the right operand first
            outs = []
            for s, vs in self.evs([es[1], es[0]], st, fr):
                outs.append((s, [vs[1], vs[0]] if not s.ab else vs))
        else:
            outs = self.evs(es, st, fr)
        out = []
        for s, vs in outs:
            if s.ab:
                out.append((s, None))
                continue
            obj = None
            args = vs
            if e.get("obj") is not None:
                obj, args = vs[0], vs[1:]
                if e.get("arrow"):
                    obj = self.ptrloc(s, obj)
            elif e.get("ce") is not None:
                obj, args = vs[0], vs[1:]
                out.extend(self.invoke(s, obj, args, e, fr))
                continue
            out.extend(self.call(s, f, obj, args, e, fr))
        return out

    def invoke(self, st, fn, args, e, fr):
        """call a function value"""
        v = self.rv(st, fn) if isinstance(fn, Loc) else fn
        if isinstance(v, Fn):
            return self.call(st, self.p.funcs[v.f], None, args, e, fr)
        if isinstance(v, Clo):
            return self.call_closure(st, v, args, e, fr)
        if isinstance(v, Sym) and v.op == "std::not_fn":
            out = []
            for s, r in self.invoke(st, v.args[0], args, e, fr):
                out.append((s, None if s.ab else c_not(self.tobool(s, self.rv(s, r)))))
            return out
        if isinstance(v, (Rec, Sym)) and isinstance(v, Rec) and v.cls is not None:
            for m in self.p.records.get(v.cls, {}).get("methods", []):
                mf = self.p.funcs.get(m)
                if mf and mf["n"] == "operator()" and (mf.get("body") is not None or norm(mf["q"]) in self.hooks) and len(mf["ps"]) == len(args):
                    return self.call(st, mf, fn if isinstance(fn, Loc) else self.newroot(st, v), args, e, fr)
        r = self.functor(st, v, args)
        if r is not None:
            return [(st, r)]
        h = self.hooks.get("$invoke")
        if h:
            r = h(self, st, v, args, e, fr)
            if r is not None:
                return r
        vals = tuple(self.rv(st, a) for a in args)
        st.ev.append(("invoke", v, vals))
        return [(st, self.typed(Sym("invoke", (v,) + vals), e.get("t", -1)))]

    def functor(self, st, v, args):
        if isinstance(v, Sym) and v.op == "ctor":
            q = v.args[0]
            if q in ("std::less", "std::greater", "std::less_equal", "std::greater_equal", "std::equal_to", "std::not_equal_to") and len(args) == 2:
                a, b = self.rv(st, args[0]), self.rv(st, args[1])
                op = {"std::less": "<", "std::greater": ">", "std::less_equal": "<=", "std::greater_equal": ">=", "std::equal_to": "==", "std::not_equal_to": "!="}[q]
                fl = isinstance(a, P) and any(isinstance(s.ty, NumTy) and s.ty.k == "f" for s in a.atoms())
                return self.compare(st, op, a, b, fl)
        return None

    def call_closure(self, st, v, args, e, fr):
        fid = v.op
        if v.specs:
            cands = [x for x in v.specs if self.p.funcs.get(x) and len(self.p.funcs[x]["ps"]) == len(args)]
            ef = e.get("f")
            fid = ef if ef in cands else (cands[0] if cands else None)
        f = self.p.funcs.get(fid)
        if f is None or f.get("body") is None:
            self.unk("closure")
            return [(st, self.typed(Sym("closure", (st.fresh(),)), e.get("t", -1)))]
        return self.inline(st, f, v.this, args, e, fr, dict(v.caps))

    def call(self, st, f, obj, args, e, fr):
        self.stats["calls"] += 1
        q = norm(f["q"])
        if e.get("virt") and isinstance(obj, Loc):
            o = self.read(st, obj)
            if isinstance(o, Rec) and o.cls is not None:
                g = self.override(f["id"], o.cls)
                if g is not None:
                    f = g
                    q = norm(f["q"])
        h = self.hooks.get(q)
        if h is not None:
            r = h(self, st, f, obj, args, e, fr)
            if r is not None:
                return r
        if f["n"] == "operator()" and obj is not None:
            o = self.rv(st, obj)
            if isinstance(o, Clo):
                return self.call_closure(st, o, args, e, fr)
            r = self.functor(st, o, args)
            if r is not None:
                return [(st, r)]
            if isinstance(o, Sym) and o.op == "std::not_fn":
                return self.invoke(st, o, args, e, fr)
        if f.get("repo") and f.get("body") is not None and q not in self.opaque:
            return self.inline(st, f, obj, args, e, fr)
        if f.get("repo") and f["n"] == "operator=" and obj is not None and len(args) == 1:
            self.write(st, obj, self.rv(st, args[0]))
            return [(st, obj)]
        sq = stripta(q)
        m = self.models.get(sq)
        if m is None and "::" in sq:
            cls, _, name = sq.rpartition("::")
            m = self.models.get(("*", cls, name)) or self.models.get(("fam", self.family(cls), name))
        if m is not None:
            r = m(self, st, f, obj, args, e, fr)
            if r is not None:
                return r if isinstance(r, list) else [(st, r)]
        return self.extern(st, f, q, obj, args, e, fr)

    def family(self, cls):
        from models import FAMILY
        return FAMILY.get(cls, cls)

    def override(self, fid, cls):
        rec = self.p.records.get(cls)
        if not rec:
            return None
        for m in rec.get("methods", []):
            mf = self.p.funcs.get(m)
            if mf and fid in mf.get("overrides", []):
                return mf
        for m in rec.get("methods", []):
            mf = self.p.funcs.get(m)
            if mf:
                for o in mf.get("overrides", []):
                    of = self.p.funcs.get(o)
                    if of and fid in of.get("overrides", []):
                        return mf
        return None

    def never_returns(self):
        """repository functions without a normal exit (least fixpoint over the call graph)"""
        nr = getattr(self.p, "_noreturn", None)
        if nr is None:
            nr = compute_noreturn(self.p)
            self.p._noreturn = nr
        return nr

    def terminal_call(self, st, f, obj, args, e, fr):
        """outcomes of a function that never returns normally; what it prints is not kept"""
        key = (f["id"], obj, self.read(st, obj) if isinstance(obj, Loc) else None,
               tuple((a, self.read(st, a)) if isinstance(a, Loc) else a for a in args))
        outs = self.terminal.get(key)
        if outs is None:
            s = st.fork()
            s.facts = Facts()
            w, self.widen = self.widen, True
            hk = self.keep_terminal_events
            try:
                res = self._inline(s, f, obj, args, e, fr)
            finally:
                self.widen = w
            outs = []
            n0 = len(st.ev)
            for x, v in res:
                evs = tuple(y for y in x.ev[n0:] if y[0] in ("remove", "rename", "open", "close", "uninit"))
                o = (x.ab, evs)
                if o not in outs:
                    outs.append(o)
            self.terminal[key] = outs
        r = []
        for ab, evs in outs:
            s = st.fork()
            s.ab = ab
            s.ev.extend(evs)
            s.ev.append(("terminal", f["id"], e.get("ln")))
            r.append((s, None if ab else VOID))
        return r

    def inline(self, st, f, obj, args, e, fr, caps=None):
        if caps is None and f["id"] in self.never_returns() and self.collapse_terminal:
            return self.terminal_call(st, f, obj, args, e, fr)
        return self._inline(st, f, obj, args, e, fr, caps)

    def _inline(self, st, f, obj, args, e, fr, caps=None):
        if fr.depth > self.maxdepth:
            st.ab = ("cut", "depth")
            self.stats["cuts"] += 1
            return [(st, None)]
        self.stats["inlined"].add(f["id"])
        this = obj
        if obj is not None and not isinstance(obj, Loc) and not f.get("static") and caps is None:
            this = self.newroot(st, obj)
        nf = Frame(("f", st.fresh()), f, this, caps, fr.depth + 1)
        before_facts = None
        self.bind_params(st, f, args, nf)
        isref = self.isref(f["ret"])
        out = []
        for s in self.exec(f["body"], st, nf):
            v = VOID
            if s.ab and s.ab[0] == "ret":
                v = s.ab[1]
                s.ab = None
                if not isref and isinstance(v, Loc) and self.p.ty(f["ret"])["k"] != "ptr":
                    v = self.rv(s, v)
                if not isref:
                    v = self.typed(v, f["ret"])
            self.pop(s, nf)
            out.append((s, None if s.ab else v))
        if self.merge and len(out) > 1:
            out = self.join(out)
        return out

    def pop(self, st, nf):
        for k in [k for k in st.store if k[0] == "v" and k[1] == nf.id]:
            if not any(True for _ in ()):
                del st.store[k]

    def join(self, outs):
        """merge path results with identical outcome, value, visible memory and effects"""
        groups = {}
        order = []
        for s, v in outs:
            live = self.liveroots(s, v)
            k = (s.ab if s.ab is None else s.ab[:3], v, tuple(sorted(((repr(r), r, s.store[r]) for r in live if r in s.store), key=lambda x: x[0])), tuple(s.ev), s.tags.get("$loop"))
            try:
                g = groups.get(k)
            except TypeError:
                order.append([(s, v)])
                continue
            if g is None:
                groups[k] = g = []
                order.append(g)
            g.append((s, v))
        res = []
        for g in order:
            if len(g) <= self.keep:
                res.extend(g)
                continue
            s = g[0][0]
            s.facts = Facts.meet_common([x[0].facts for x in g])
            s.ctr = max(x[0].ctr for x in g)
            res.append((s, g[0][1]))
        return res

    def liveroots(self, st, v):
        live = [r for r in st.store if r[0] not in ("t", "strlit", "view")]
        seen = set(live)
        work = [st.store[r] for r in live] + [v]
        for e in st.ev:
            work.extend(e)
        while work:
            x = work.pop()
            for r in roots_of(x):
                if r not in seen and r in st.store:
                    seen.add(r)
                    live.append(r)
                    work.append(st.store[r])
        return live

    def extern(self, st, f, q, obj, args, e, fr):
        """unmodelled library function: pure uninterpreted if it cannot mutate, else effect + havoc"""
        self.stats["externs"][q] = self.stats["externs"].get(q, 0) + 1
        vals = []
        muts = []
        for i, a in enumerate(args):
            pt = self.p.ty(f["ps"][i]["t"]) if i < len(f["ps"]) else None
            if isinstance(a, Loc):
                vals.append(self.read(st, a))
                if pt is not None and pt["k"] == "ref" and not self.p.ty(pt["p"]).get("c"):
                    muts.append(a)
            elif isinstance(a, Iter):
                vals.append(a)
            else:
                vals.append(a)
        o = None
        if obj is not None:
            o = self.rv(st, obj)
            if isinstance(obj, Loc) and not f.get("const") and not f.get("static"):
                muts.append(obj)
        key = ((o,) if obj is not None else ()) + tuple(vals)
        if f.get("noreturn"):
            st.ab = ("noreturn", q, key)
            return [(st, None)]
        if muts:
            st.ev.append(("call", q, key))
            for m in muts:
                self.write(st, m, Sym("mut:" + q, key + (self.read(st, m),)))
        r = Sym(q, key)
        rt = self.p.ty(f["ret"])
        if rt["k"] == "void":
            return [(st, VOID)]
        st.ev.append(("opaque", q))
        if rt["k"] in ("ref", "rref"):
            if obj is not None and isinstance(obj, Loc) and self.p.strip_ref(f["ret"]) >= 0 and f.get("cls") is not None and self.p.ty(self.p.strip_ref(f["ret"])).get("r") == f["cls"]:
                return [(st, obj)]
            return [(st, Loc(("deref", r)))]
        return [(st, self.typed(r, f["ret"]))]

    # ------------------------------------------------------------ statements
    def exec(self, s, st, fr):
        if s is None:
            return [st]
        m = getattr(self, "s_" + {"{": "block"}.get(s["k"], s["k"]), None)
        if m is None:
            self.unk("stmt:" + s["k"] + ":" + str(s.get("c")))
            return [st]
        return m(s, st, fr)

    def s_e(self, s, st, fr):
        return [x for x, _ in self.ev(s["e"], st, fr)]

    def s_null(self, s, st, fr):
        return [st]

    def s_block(self, s, st, fr):
        outs = [st]
        decls = []
        for c in s["b"]:
            if c and c["k"] == "decl":
                decls.extend(c["v"])
            nxt = []
            for x in outs:
                if x.ab:
                    nxt.append(x)
                else:
                    nxt.extend(self.exec(c, x, fr))
            outs = nxt
            if not outs:
                break
        return self.destroy(decls, outs, fr)

    def destroy(self, decls, outs, fr):
        ds = [d for d in decls if not d.get("static") and self.p.ty(d["t"])["k"] == "rec"]
        if not ds:
            return outs
        for d in reversed(ds):
            t = self.p.ty(d["t"])
            q = norm(t["q"])
            rec = self.p.records.get(t["r"])
            dt = self.p.funcs.get(rec.get("dtor")) if rec and rec.get("repo") else None
            nxt = []
            for x in outs:
                if x.ab and x.ab[0] in ("exit", "noreturn", "cut", "terminate"):
                    nxt.append(x)
                    continue
                l = Loc(("v", fr.id, d["d"]))
                if l.root not in x.store:
                    nxt.append(x)
                    continue
                if q in ("std::basic_ofstream", "std::basic_fstream", "std::basic_ifstream"):
                    x.ev.append(("close", self.read(x, l)))
                    nxt.append(x)
                elif dt is not None and dt.get("body") is not None:
                    ab = x.ab
                    x.ab = None
                    for y, _ in self.inline(x, dt, l, [], {"t": -1, "ln": 0}, fr):
                        if y.ab is None:
                            y.ab = ab
                        nxt.append(y)
                else:
                    nxt.append(x)
            outs = nxt
        return outs

    def s_decl(self, s, st, fr):
        outs = [st]
        for d in s["v"]:
            nxt = []
            for x in outs:
                if x.ab:
                    nxt.append(x)
                else:
                    nxt.extend(self.declare(d, x, fr))
            outs = nxt
        return outs

    def declare(self, d, st, fr):
        if d.get("static"):
            return [st]
        root = ("v", fr.id, d["d"])
        self.vty[root] = d["t"]
        t = self.p.ty(d["t"])
        if t["k"] in ("ref", "rref"):
            out = []
            for s, v in self.ev(d["i"], st, fr):
                if not s.ab:
                    if isinstance(v, RefV):
                        v = v.loc
                    s.store[root] = RefV(v if isinstance(v, Loc) else self.newroot(s, v))
                out.append(s)
        elif d.get("i") is None:
            st.store[root] = UNINIT if t["k"] != "rec" else Rec(t["r"], self.uninit_fields(t["r"]))
            out = [st]
        else:
            st.store[root] = UNINIT
            out = self.construct(d["i"], st, fr, Loc(root))
            for s in out:
                if not s.ab:
                    s.store[root] = self.typed(s.store[root], d["t"])
        if d.get("bind"):
            res = []
            for s in out:
                cur = [s]
                for b in d["bind"]:
                    nxt = []
                    for y in cur:
                        if y.ab:
                            nxt.append(y)
                            continue
                        br = ("v", fr.id, b["d"])
                        if b.get("hi") is not None:
                            base = Loc(root)
                            for s2, v in self.ev(b["hi"], y, fr):
                                if not s2.ab:
                                    s2.store[br] = RefV(v) if isinstance(v, Loc) else v
                                    if b.get("hv"):
                                        s2.store[("v", fr.id, b["hv"])] = s2.store[br]
                                nxt.append(s2)
                        elif b.get("e") is not None:
                            for s2, v in self.ev(b["e"], y, fr):
                                if not s2.ab:
                                    s2.store[br] = RefV(v) if isinstance(v, Loc) else v
                                nxt.append(s2)
                        else:
                            nxt.append(y)
                    cur = nxt
                res.extend(cur)
            out = res
        return out

    def cond(self, s, st, fr):
        """evaluate a statement condition -> [(st, bool or None)]"""
        outs = [st]
        if s.get("init") is not None:
            outs = self.exec(s["init"], st, fr)
        if s.get("cv") is not None:
            nxt = []
            for x in outs:
                nxt.extend(self.declare(s["cv"], x, fr) if not x.ab else [x])
            outs = nxt
        res = []
        for x in outs:
            if x.ab:
                res.append((x, None))
                continue
            for y, v in self.ev(s["c"], x, fr):
                if y.ab:
                    res.append((y, None))
                else:
                    res.extend(self.branch(y, self.tobool(y, self.rv(y, v))))
        return res

    def s_if(self, s, st, fr):
        out = []
        for x, t in self.cond(s, st, fr):
            if t is None:
                out.append(x)
            elif t:
                out.extend(self.exec(s["a"], x, fr))
            elif s.get("b") is not None:
                out.extend(self.exec(s["b"], x, fr))
            else:
                out.append(x)
        if self.merge and len(out) > 1:
            out = self.joinst(out)
        return out

    def joinst(self, outs):
        """states that only differ in facts about an if without any effect are merged"""
        if len(outs) > 8:
            return [s for s, _ in self.join([(s, None) for s in outs])]
        return outs

    def s_ret(self, s, st, fr):
        if s.get("e") is None:
            st.ab = ("ret", VOID, s["ln"])
            return [st]
        out = []
        e = s["e"]
        isref = fr.f is not None and self.isref(fr.f["ret"])
        for x, v in self.ev(e, st, fr):
            if not x.ab:
                if not isref and isinstance(v, Loc) and self.p.ty(e["t"])["k"] != "ptr":
                    v = self.rv(x, v)
                x.ab = ("ret", v, s["ln"])
            out.append(x)
        return out

    def s_break(self, s, st, fr):
        st.ab = ("break",)
        return [st]

    def s_continue(self, s, st, fr):
        st.ab = ("continue",)
        return [st]

    def loop(self, st, fr, cond, body, inc, first=True, node=None):
        """cond(st)->[(st,bool)], body(st)->[st], inc(st)->[st]

        Iterations with a decided guard are followed exactly.  A guard that depends on the input
        is either unrolled to the bound, or (widen mode) replaced by a loop invariant: every
        location the body changes becomes unknown and one arbitrary iteration is analysed."""
        outs = []
        st0 = st.fork() if self.widen else None
        c = node.get("c") if node else None
        while isinstance(c, dict) and c.get("k") in ("cast", "paren") and isinstance(c.get("e"), dict):
            c = c["e"]
        endless = node is not None and (c is None or (isinstance(c, dict) and c.get("k") in ("bool", "int") and str(c.get("cv", c.get("v", "0"))) not in ("0", "None", "False")))
        work = [(st, 0)]
        while work:
            x, n = work.pop()
            if self.widen and (n > 0 or first):
                probe = x.fork()
                cs = cond(probe)
                live = [c for c in cs if c[1] is not None]
                if self.rounds and n > self.rounds and len(live) == len(cs) == 1:
                    raise OutOfRange("a loop does not end within %d rounds" % n)
                if len(live) != 1 or n > (self.rounds or 300) or len(cs) != 1:
                    if n > 0 and first:
                        # not a constant trip count: analyse the whole loop by its invariant
                        return self.widen_loop(st0, fr, cond, body, inc, node)
                    outs.extend(self.widen_loop(x, fr, cond, body, inc, node))
                    continue
            elif first is False and n == 0:
                cs = [(x, True)]
            else:
                cs = cond(x)
            for y, t in cs:
                if t is None or not t:
                    outs.append(y)
                    continue
                if n >= self.unroll and not (len(cs) == 1 and n < max(400, self.rounds + 2)):
                    self.stats["cuts"] += 1
                    y.ab = ("cut", "loop", node.get("ln") if node else None)
                    outs.append(y)
                    continue
                if self.widen and first is False and n == 0:
                    back, o = self.iterate(y, body, inc)
                    if endless and back and o and not self.enumerate:
                        return self.widen_loop(st0, fr, cond, body, inc, node)
                    outs.extend(o)
                    work.extend((w, 1) for w in back)
                    continue
                back, o = self.iterate(y, body, inc)
                if self.widen and (endless or self.widen_exits) and back and o and not self.enumerate:
                    # for (;;) whose exits depend on data
                    return self.widen_loop(st0, fr, cond, body, inc, node)
                outs.extend(o)
                work.extend((w, n + 1) for w in back)
        return outs

    def iterate(self, y, body, inc):
        """one pass through the body -> (back-edge states, leaving states)"""
        back, outs = [], []
        for z in body(y):
            if z.ab and z.ab[0] == "break":
                z.ab = None
                outs.append(z)
                continue
            if z.ab and z.ab[0] == "continue":
                z.ab = None
            if z.ab:
                outs.append(z)
                continue
            for w in inc(z):
                (outs if w.ab else back).append(w)
        return back, outs

    def widen_loop(self, st, fr, cond, body, inc, node):
        lid = ("loop", fr.f["id"] if fr.f else 0, node.get("ln") if node else None, st.fresh())
        n0 = len(st.ev)
        H = st.fork()
        H.ev = []
        allroots = set(H.store)
        atoms = {}          # widened atom -> (path key, initial value)
        mono = {}
        pairs = {}
        for rnd in range(6):
            backs = []
            for y, t in cond(H.fork()):
                if t:
                    b, _ = self.iterate(y, body, inc)
                    backs.extend(b)
            changed = False
            mono = {}
            pairs = {}
            for b in backs:
                self.delta = {}
                for r in list(H.store):
                    if r not in b.store:
                        continue
                    nv = self.generalise(H, H.store[r], b.store[r], lid, (r,), self.vty.get(r), atoms, mono)
                    if nv is not None and nv != H.store[r]:
                        H.store[r] = nv
                        changed = True
                # roots created lazily in the body (globals, derefs) that the entry did not know
                for r, v in b.store.items():
                    if r not in H.store and r[0] in ("g", "deref", "mem", "s"):
                        init = self.rawroot(st, r)
                        H.store[r] = init
                        if v != init:
                            changed = True
                            nv = self.generalise(H, init, v, lid, (r,), self.vty.get(r), atoms, mono)
                            if nv is not None:
                                H.store[r] = nv
                ds = list(self.delta.items())
                if 2 <= len(ds) <= 6:
                    for a1, d1 in ds:
                        for a2, d2 in ds:
                            if a1 is not a2:
                                d = d2 - d1
                                lo = d.const() if d.const() is not None else b.facts.bounds(d)[0]
                                pairs.setdefault((a1, a2), []).append(lo)
            if not changed:
                break
        else:
            self.stats["cuts"] += 1
        # induction: atoms that only grow / only shrink keep their initial value as a bound
        for a, (lo, hi) in mono.items():
            init = atoms.get(a)
            if init is None or not isinstance(init, P):
                continue
            d = P.a(a) - init
            if lo >= 0:
                H.facts._add(d, lo=0)
            if hi <= 0:
                H.facts._add(d, hi=0)
        if self.houdini:
            self.bound_atoms(st, H, cond, body, inc, lid, atoms)
        # an atom that in every iteration grows at least as much as another stays ahead of it
        for (a1, a2), los in pairs.items():
            if len(los) == len(backs) and min(los) >= 0 and isinstance(atoms.get(a1), P) and isinstance(atoms.get(a2), P):
                H.facts._add((P.a(a2) - atoms[a2]) - (P.a(a1) - atoms[a1]), lo=0)
        # atoms that change by constants in every iteration stay in a fixed linear relation
        lock = [(a, lo) for a, (lo, hi) in mono.items() if lo == hi and lo not in (0, INF, -INF) and isinstance(atoms.get(a), P)]
        for a, d in lock[1:]:
            b, e = lock[0]
            H.facts._add((P.a(a) - atoms[a]).scale(e) - (P.a(b) - atoms[b]).scale(d), lo=0, hi=0)
        outs = []
        normal = []
        traces = []
        for y, t in cond(H.fork()):
            if t is None:
                outs.append(y)
            elif not t:
                outs.append(y)
                normal.append(y)
            else:
                b, o = self.iterate(y, body, inc)
                traces.extend(b)
                outs.extend(o)
        self.map_summary(st, H, traces, normal, atoms, mono)
        self.loops[lid] = (node, fr.f, H, traces, st)
        evs = frozenset(tuple(b.ev) for b in traces)
        pre = st.ev
        mark = [("loop", lid, evs)] if any(evs) else []
        for o in outs:
            o.ev = pre + mark + o.ev
            o.ctr = max(o.ctr, st.ctr + 1)
        return outs

    def bound_atoms(self, st, H, cond, body, inc, lid, atoms):
        """inductive bounds a <= t, t <= a of the loop variables: guessed from the terms in scope,
        kept if they hold on entry and one arbitrary iteration preserves them"""
        terms = [ZERO]
        for v in st.store.values():
            if isinstance(v, P) and v not in terms and len(v.t) <= 2:
                terms.append(v)
        terms = terms[:14]
        cand = []
        for a, init in atoms.items():
            if not isinstance(init, P) or a.ty is None:
                continue
            k = "f" if a.ty.k == "f" else "i"
            for t in terms:
                if st.facts.entails(c_lt(init, t, k)):
                    cand.append((a, c_lt, t, 1, k))
                if st.facts.entails(c_le(init, t, k)):
                    cand.append((a, c_le, t, 1, k))
                if st.facts.entails(c_le(t, init, k)):
                    cand.append((a, c_le, t, -1, k))
        cand = cand[:60]

        def fact(v, c):
            a, op, t, sg, k = c
            return op(v, t, k) if sg > 0 else op(t, v, k)
        for rnd in range(8):
            if not cand:
                return
            h = H.fork()
            for c in cand:
                h.facts.assume(fact(P.a(c[0]), c))
            backs = []
            for y, t in cond(h.fork()):
                if t:
                    backs.extend(self.iterate(y, body, inc)[0])
            keep = list(cand)
            for b in backs:
                self.delta = {}
                for r in list(H.store):
                    if r in b.store:
                        self.generalise(H, H.store[r], b.store[r], lid, (r,), self.vty.get(r), atoms, {})
                keep = [c for c in keep if c[0] not in self.delta or b.facts.entails(fact(P.a(c[0]) + self.delta[c[0]], c))]
            if len(keep) == len(cand):
                break
            cand = keep
        else:
            return
        for c in cand:
            H.facts.assume(fact(P.a(c[0]), c))

    def map_summary(self, st, H, traces, normal, atoms, mono):
        """a loop that visits every position once and replaces each character c by g(c), where g
        depends on c alone, has the closed form map(table of g, old sequence)"""
        if not traces or not normal:
            return
        idxs = [P.a(a) for a, m in mono.items() if m == (1, 1) and isinstance(atoms.get(a), P) and atoms[a].const() == 0]
        if not idxs:
            return
        for r, hv in H.store.items():
            if not isinstance(hv, Vec) or hv.base[0] != "sym" or not isinstance(hv.base[1], Sym) or hv.base[1].op != "w" or hv.writes:
                continue
            old = st.store.get(r)
            if isinstance(old, Vec) and old.base[0] == "sym" and not old.writes:
                src = old.base[1]
            elif isinstance(old, (Sym, Str)):
                src = old
            else:
                continue
            for ix in idxs:
                if not all(n.facts.entails(c_eq(ix, hv.n, "i")) for n in normal):
                    continue
                c = Sym("elem", (hv.base[1], ix), CHAR)
                tab = self.chartable(H, traces, r, hv, ix, c)
                if tab is None:
                    continue
                nv = Sym("map", (Sym("tab", tab), src))
                if tab == tuple(range(-128, 128)):
                    nv = src
                for n in normal:
                    if n.store.get(r) == hv:
                        n.store[r] = nv
                break

    def chartable(self, H, traces, r, hv, ix, c):
        opts = []
        for b in traces:
            v = b.store.get(r)
            if v == hv:
                opts.append((b, P.a(c)))
                continue
            if not isinstance(v, Vec) or v.base != hv.base or len(v.writes) != 1 or v.writes[0][0] != ix:
                return None
            x = v.writes[0][1]
            if isinstance(x, Sym) and x.op == "elem":
                x = P.a(Sym("elem", x.args, CHAR))
            if not isinstance(x, P):
                return None
            opts.append((b, x))
        tab = []
        for k in range(-128, 128):
            got = set()
            for b, x in opts:
                f = b.facts.copy()
                if not f.assume(c_eq(P.a(c), P.c(k), "i"), True):
                    continue
                y = x.subst(lambda s: P.c(k) if s is c else None)
                if y.const() is None:
                    try:
                        got.add(wrapc(evalp(x, {c: k}), CHAR))
                    except CantEval:
                        return None
                else:
                    got.add(wrapc(y.const(), CHAR))
            if len(got) != 1:
                return None
            tab.append(got.pop())
        return tuple(tab)

    def generalise(self, H, old, new, lid, path, ti, atoms, mono):
        """least abstract value covering old (at the loop head) and new (after one iteration)"""
        if isinstance(old, RefV) or isinstance(new, RefV):
            return old if old == new else None
        if old == new:
            return old
        if isinstance(old, P) and isinstance(new, P):
            a = old.atom()
            if a is not None and a in atoms:
                d = new - old
                lo, hi = H.facts.bounds(d) if d.const() is None else (d.const(), d.const())
                p = mono.get(a, (INF, -INF))
                mono[a] = (min(p[0], lo), max(p[1], hi))
                self.delta[a] = d
                return old
            ty = self.nty(ti) if ti is not None else None
            s = Sym("w", (lid, path), ty)
            atoms[s] = old
            return P.a(s)
        if isinstance(old, Rec) and isinstance(new, Rec) and old.cls == new.cls:
            r = old
            rec = self.p.records.get(old.cls) if isinstance(old.cls, int) else None
            ft = {f["n"]: f["t"] for f in rec["fields"]} if rec else {}
            for k in set(old.fields) | set(new.fields):
                x, y = old.get(k), new.get(k)
                if x is None:
                    x = self.select(H, old, k)
                if y is None:
                    y = self.select(H, new, k)
                if x != y:
                    g = self.generalise(H, x, y, lid, path + (k,), ft.get(k), atoms, mono)
                    r = r.set(k, g if g is not None else Sym("w", (lid, path + (k,)), None))
            return r
        if isinstance(old, Opt) and isinstance(new, Opt):
            h = self.generalise(H, old.has, new.has, lid, path + ("has",), None, atoms, mono)
            return Opt(h if h is not None else P.a(Sym("w", (lid, path + ("has",)), BOOL)), old.val if old.val == new.val else Sym("w", (lid, path + ("val",)), None))
        if isinstance(old, (Vec, Str, Sym)) and isinstance(new, (Vec, Str)) and not (isinstance(old, Sym) and old.op == "w" and old.args == (lid, path)):
            o, n = self.asvec(H, old), self.asvec(H, new)
            ln = o.n if o.n == n.n else self.generalise(H, o.n, n.n, lid, path + ("n",), None, atoms, mono)
            if ln != o.n and isinstance(ln, P) and ln.atom() is not None and ln.atom().ty is None:
                H.facts._add(ln, lo=0)
            if o.base == ("sym", Sym("w", (lid, path + ("base",)), None)) and not o.writes:
                return Vec(ln, o.base)
            return Vec(ln, ("sym", Sym("w", (lid, path + ("base",)), None)))
        if isinstance(old, Iter) and isinstance(new, Iter) and old.loc == new.loc and old.rev == new.rev:
            i = self.generalise(H, old.idx, new.idx, lid, path + ("idx",), None, atoms, mono)
            return Iter(old.loc, i, old.rev)
        s = Sym("w", (lid, path), None)
        if old == s:
            return old
        ty = self.nty(ti) if ti is not None else None
        return P.a(Sym("w", (lid, path), ty)) if ty is not None else s

    def s_while(self, s, st, fr):
        return self.loop(st, fr, lambda x: self.cond(s, x, fr), lambda x: self.exec(s["b"], x, fr), lambda x: [x], node=s)

    def s_do(self, s, st, fr):
        return self.loop(st, fr, lambda x: self.cond({"c": s["c"]}, x, fr), lambda x: self.exec(s["b"], x, fr), lambda x: [x], first=False, node=s)

    def s_for(self, s, st, fr):
        outs = [st]
        if s.get("i") is not None:
            outs = self.exec(s["i"], st, fr)
        res = []
        for x in outs:
            if x.ab:
                res.append(x)
                continue
            c = (lambda y: self.cond({"c": s["c"]}, y, fr)) if s.get("c") is not None else (lambda y: [(y, True)])
            inc = (lambda y: [z for z, _ in self.ev(s["n"], y, fr)]) if s.get("n") is not None else (lambda y: [y])
            res.extend(self.loop(x, fr, c, lambda y: self.exec(s["b"], y, fr), inc, node=s))
        ds = s["i"]["v"] if s.get("i") is not None and s["i"]["k"] == "decl" else []
        return self.destroy(ds, res, fr) if ds else res

    def length(self, st, loc):
        v = self.rv(st, loc)
        return v.n if isinstance(v, Vec) else P.c(len(v.s)) if isinstance(v, Str) else v

    def s_frange(self, s, st, fr):
        outs = [st]
        for part in ("init", "range", "begin", "end"):
            if s.get(part) is None:
                continue
            nxt = []
            for x in outs:
                nxt.extend(self.exec(s[part], x, fr) if not x.ab else [x])
            outs = nxt
        if s.get("c") is None:
            self.unk("frange-dep")
            return outs
        res = []
        for x in outs:
            if x.ab:
                res.append(x)
                continue

            def body(y):
                o = []
                for z in self.exec(s["var"], y, fr):
                    if z.ab:
                        o.append(z)
                    else:
                        o.extend(self.exec(s["b"], z, fr))
                if over is not None:
                    for z in o:
                        if not z.ab and self.length(z, over) != n0:
                            # its end (and after reallocation every) iterator is invalid now
                            z.ev = z.ev + [("ub", "a vector or string changes its size while a range-for loop visits it", s.get("ln"))]
                return o
            over = n0 = None
            if s.get("begin") is not None and s["begin"].get("v"):
                d = s["begin"]["v"][0]
                it = x.store.get(("v", fr.id, d["d"]))
                if isinstance(it, Iter) and it.loc is not None and "__normal_iterator" in self.p.ty(d["t"]).get("s", ""):
                    over, n0 = it.loc, self.length(x, it.loc)
            res.extend(self.loop(x, fr, lambda y: self.cond({"c": s["c"]}, y, fr), body,
                                 lambda y: [z for z, _ in self.ev(s["n"], y, fr)], node=s))
        return res

    def s_switch(self, s, st, fr):
        out = []
        starts = [st]
        if s.get("init") is not None:
            starts = self.exec(s["init"], st, fr)
        body = s["b"]["b"] if s["b"]["k"] == "{" else [s["b"]]
        flat = []
        for c in body:
            labels = []
            while c is not None and c["k"] in ("case", "default"):
                labels.append(c["v"] if c["k"] == "case" else "default")
                c = c["b"]
            flat.append((labels, c))
        for x0 in starts:
            if x0.ab:
                out.append(x0)
                continue
            for x, v in self.ev(s["c"], x0, fr):
                if x.ab:
                    out.append(x)
                    continue
                v = self.rv(x, v)
                cur = [x]
                jumps = []
                dflt = None
                for i, (ls, c) in enumerate(flat):
                    for l in ls:
                        if l == "default":
                            dflt = i
                            continue
                        nxt = []
                        for y in cur:
                            for z, t in self.branch(y, self.compare(y, "==", v, P.c(int(l["cv"])), False)):
                                if t:
                                    jumps.append((z, i))
                                else:
                                    nxt.append(z)
                        cur = nxt
                for y in cur:
                    if dflt is None:
                        out.append(y)
                    else:
                        jumps.append((y, dflt))
                for y, i in jumps:
                    states = [y]
                    for _, c in flat[i:]:
                        nxt = []
                        for z in states:
                            nxt.extend(self.exec(c, z, fr) if not z.ab else [z])
                        states = nxt
                    for z in states:
                        if z.ab and z.ab[0] == "break":
                            z.ab = None
                        out.append(z)
        return out

    s_case = s_default = lambda self, s, st, fr: self.exec(s["b"], st, fr)

    def s_try(self, s, st, fr):
        out = []
        for x in self.exec(s["b"], st, fr):
            if x.ab and x.ab[0] == "throw":
                done = False
                for h in s["h"]:
                    if h.get("all") or self.catches(h, x.ab[1]):
                        ab = x.ab
                        x.ab = None
                        if h.get("v") is not None:
                            x.store[("v", fr.id, h["v"]["d"])] = ab[2]
                        for y in self.exec(h["b"], x, fr):
                            if y.ab and y.ab[0] == "throw" and y.ab[1] == "rethrow":
                                y.ab = ab
                            out.append(y)
                        done = True
                        break
                if not done:
                    out.append(x)
            else:
                out.append(x)
        return out

    def catches(self, h, tname):
        t = self.p.ts(self.p.strip_ref(h["t"])).replace("const ", "")
        if t == tname or t == "std::exception":
            return True
        B = {"std::logic_error": ("std::invalid_argument", "std::domain_error", "std::out_of_range", "std::length_error"),
             "std::runtime_error": ("std::range_error", "std::overflow_error")}
        return tname in B.get(t, ())

    # ------------------------------------------------------------ entry
    def run(self, f, this=None, args=(), st=None):
        st = st or State()
        fr = Frame(("f", 0), None, None, None, 0)
        res = []
        if f.get("ctor"):
            for s in self.run_ctor(st, f, this, list(args), fr, {"ln": 0}):
                res.append(Path(s, "return" if s.ab is None else s.ab[0], VOID if s.ab is None else s.ab))
            return res
        h = self.hooks.get(norm(f["q"]))
        for s, v in self.inline(st, f, this, list(args), {"t": f["ret"], "ln": 0}, fr):
            if s.ab is None:
                res.append(Path(s, "return", v))
            else:
                res.append(Path(s, s.ab[0], s.ab))
        return res


_rootc = {}


def roots_of(x):
    """memory roots a value refers to"""
    if isinstance(x, P):
        return ()
    if isinstance(x, (Loc,)):
        return (x.root,)
    if isinstance(x, (V, Sym)):
        r = _rootc.get(x)
        if r is None:
            acc = set()
            for y in (x.args if isinstance(x, Sym) else x.key()):
                acc.update(roots_of(y))
            r = tuple(acc)
            _rootc[x] = r
        return r
    if isinstance(x, (tuple, list)):
        acc = set()
        for y in x:
            acc.update(roots_of(y))
        return tuple(acc)
    return ()


class _Opq:
    pass


SELF = Loc(("self",))


def rebase(v, a, b):
    """value v with pointers into location a made pointers into location b"""
    n = len(a.path)

    def mv(l):
        return Loc(b.root, b.path + l.path[n:]) if l.root == a.root and l.path[:n] == a.path else l

    def go(x):
        if isinstance(x, Loc):
            return mv(x)
        if isinstance(x, Iter):
            l = mv(x.loc) if isinstance(x.loc, Loc) else x.loc
            return x if l is x.loc else Iter(l, x.idx, x.rev)
        if isinstance(x, Rec):
            fs = {k: go(y) for k, y in x.fields.items()}
            return x if all(fs[k] is x.fields[k] for k in fs) else Rec(x.cls, fs, x.base)
        if isinstance(x, Vec):
            w = tuple((i, go(y)) for i, y in x.writes)
            bs = (x.base[0], go(x.base[1])) if x.base[0] == "fill" else x.base
            same = all(p[1] is q[1] for p, q in zip(w, x.writes)) and (bs is x.base or bs[1] is x.base[1])
            return x if same else Vec(x.n, bs, w)
        if isinstance(x, Opt):
            y = go(x.val)
            return x if y is x.val else Opt(x.has, y)
        return x
    return go(v)


def xordiff(a, b):
    """x^a == x^b is a == b"""
    ops = []
    for v in (a, b):
        y = v.atom()
        xs, work = [], [v]
        if y is None or y.op != "bxor":
            if v.const() == 0:
                ops.append([])
                continue
            return None
        while work:
            z = work.pop()
            y = z.atom()
            if y is not None and y.op == "bxor":
                work.extend(y.args)
            else:
                xs.append(z)
        ops.append(xs)
    l = list(ops[0])
    for x in ops[1]:
        if x in l:
            l.remove(x)
        else:
            l.append(x)
    if not l:
        return ZERO, ZERO
    return (l[0], l[1]) if len(l) == 2 else None


def _xorcancel(xs):
    r = []
    for x in xs:
        if x in r:
            r.remove(x)
        else:
            r.append(x)
    return r or [ZERO]


def _frac(s):
    if "E" in s or "e" in s:
        m, x = s.lower().split("e")
        return _nn(Fraction(m) * Fraction(10) ** int(x))
    return _nn(Fraction(s))


def _nn(x):
    return int(x) if x.denominator == 1 else x


def dom_mul(a, b):
    from dom import _mul
    return _mul(a[0], a[1], b[0], b[1])


def compute_noreturn(p):
    nr = set()
    cand = [f for f in p.funcs.values() if f.get("body") is not None and not f.get("dep")]
    lib = {f["id"] for f in p.funcs.values() if f.get("noreturn") or norm(f["q"]) in ("std::exit", "exit", "abort", "std::abort", "std::terminate")}

    def stops(e):
        """expression certainly does not complete"""
        if not isinstance(e, dict):
            return False
        k = e.get("k")
        if k == "throw":
            return False      # exceptions are normal data flow for the callers
        if k == "call":
            if e.get("f") in nr or e.get("f") in lib:
                return True
            return any(stops(x) for x in [e.get("obj"), e.get("ce")] + e["as"])
        if k == "bin" and e["op"] in ("&&", "||"):
            return stops(e["l"])
        if k == "cond":
            return stops(e["c"]) or (stops(e["a"]) and stops(e["b"]))
        if k == "lambda":
            return False
        return any(stops(v) if isinstance(v, dict) else isinstance(v, list) and any(stops(x) for x in v) for v in e.values())

    def out(s):
        """possible completions of a statement: subset of {n, b, c, r}"""
        if s is None:
            return {"n"}
        k = s["k"]
        if k == "{":
            r = set()
            for c in s["b"]:
                o = out(c)
                r |= o - {"n"}
                if "n" not in o:
                    return r
            return r | {"n"}
        if k == "e":
            e = s["e"]
            if e.get("k") == "throw":
                return {"t"}
            return set() if stops(e) else {"n"}
        if k == "decl":
            return set() if any(stops(d.get("i")) for d in s["v"]) else {"n"}
        if k == "ret":
            return set() if s.get("e") is not None and stops(s["e"]) else {"r"}
        if k == "break":
            return {"b"}
        if k == "continue":
            return {"c"}
        if k == "if":
            if s.get("c") is not None and stops(s["c"]):
                return set()
            cv = (s.get("c") or {}).get("cv")
            if cv is not None:
                return out(s["a"]) if int(cv) else out(s.get("b"))
            return out(s["a"]) | out(s.get("b"))
        if k in ("while", "for", "do"):
            o = out(s["b"])
            r = o - {"n", "b", "c"}
            c = s.get("c")
            if c is not None and k != "do" and stops(c):
                return set()
            inf = c is None or (c.get("cv") is not None and int(c["cv"]))
            if k == "do" and not (o & {"n", "c", "b"}):
                return r
            if not inf or "b" in o:
                r |= {"n"}
            return r
        if k == "frange":
            return (out(s["b"]) - {"b", "c"}) | {"n"}
        if k == "try":
            r = out(s["b"]) - {"t"}
            for h in s["h"]:
                r |= out(h["b"])
            return r
        if k == "switch":
            return (out(s["b"]) - {"b"}) | {"n"}
        if k in ("case", "default"):
            return out(s["b"])
        return {"n"}

    changed = True
    while changed:
        changed = False
        for f in cand:
            if f["id"] in nr:
                continue
            try:
                o = out(f["body"])
            except (KeyError, TypeError):
                continue
            if not (o & {"n", "r"}) and "t" not in o:
                nr.add(f["id"])
                changed = True
    return nr
