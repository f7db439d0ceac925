"""Abstract domains of the analyser.

Numeric values are polynomials over value-numbered atoms (Herbrand terms); order facts are
kept as intervals on linear forms with difference-bound closure; atoms with a small universe
(characters, flags) carry an exact value set.  Nothing here executes the analysed program and
no solver is involved: every query is answered by normalisation, interval arithmetic,
shortest paths, or enumeration of an atom's finite value set.
"""
from fractions import Fraction
import functools

_intern = {}
_uid = [0]


class Sym:
    __slots__ = ("op", "args", "ty", "uid")

    def __new__(cls, op, args=(), ty=None):
        key = (op, args, ty)
        s = _intern.get(key)
        if s is None:
            s = object.__new__(cls)
            s.op, s.args, s.ty = op, args, ty
            _uid[0] += 1
            s.uid = _uid[0]
            _intern[key] = s
        return s

    def __hash__(self):
        return self.uid

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        if not self.args:
            return str(self.op)
        if self.op == "tab":
            return "tab#%d" % self.uid
        return f"{self.op}({', '.join(map(repr, self.args))})"


class NumTy:
    """numeric type: kind i/f/b, width, signed"""
    __slots__ = ("k", "w", "sg")
    _c = {}

    def __new__(cls, k, w, sg):
        t = cls._c.get((k, w, sg))
        if t is None:
            t = object.__new__(cls)
            t.k, t.w, t.sg = k, w, sg
            cls._c[(k, w, sg)] = t
        return t

    def range(self):
        if self.k == "b":
            return (0, 1)
        if self.k == "i":
            if self.sg:
                return (-(1 << (self.w - 1)), (1 << (self.w - 1)) - 1)
            return (0, (1 << self.w) - 1)
        return (None, None)

    def __repr__(self):
        return f"{self.k}{self.w}{'s' if self.sg else 'u'}"


I64 = NumTy("i", 64, True)
U64 = NumTy("i", 64, False)
I32 = NumTy("i", 32, True)
BOOL = NumTy("b", 8, False)
CHAR = NumTy("i", 8, True)
F80 = NumTy("f", 128, True)


class P:
    """polynomial with rational coefficients over Sym atoms"""
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    @staticmethod
    def c(v):
        if isinstance(v, bool):
            v = int(v)
        return P({(): v}) if v != 0 else P({})

    @staticmethod
    def a(sym):
        return P({((sym, 1),): 1})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def const(self):
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def k0(self):
        return self.t.get((), 0)

    def atom(self):
        """single atom with coefficient 1, else None"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def atoms(self):
        r = set()
        for m in self.t:
            for s, _ in m:
                r.add(s)
        return r

    def __add__(self, o):
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return P(r)

    def __neg__(self):
        return P({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                if not m1:
                    m = m2
                elif not m2:
                    m = m1
                else:
                    d = dict(m1)
                    for s, e in m2:
                        d[s] = d.get(s, 0) + e
                    m = tuple(sorted(d.items(), key=lambda x: x[0].uid))
                v = r.get(m, 0) + c1 * c2
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
        return P(r)

    def pow(self, e):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return P({tuple((s, k * e) for s, k in m): c ** e})
        r, y = ONE, self
        while e:
            if e & 1:
                r = r * y
            e >>= 1
            if e:
                y = y * y
        return r

    def scale(self, k):
        if k == 0:
            return P({})
        return P({m: _n(c * k) for m, c in self.t.items()})

    def linear(self):
        return all(len(m) == 0 or (len(m) == 1 and m[0][1] == 1) for m in self.t)

    def form(self):
        """(form, scale, const): self = scale*form + const, form normalised"""
        items = sorted(((m, c) for m, c in self.t.items() if m), key=lambda x: [(s.uid, e) for s, e in x[0]])
        if not items:
            return None, 1, self.k0()
        lead = items[0][1]
        f = P({m: _n(Fraction(c) / lead) for m, c in items})
        return f, lead, self.k0()

    def subst(self, fn):
        """replace atoms: fn(sym)->P or None"""
        r = P({})
        for m, c in self.t.items():
            x = P.c(c)
            for s, e in m:
                y = fn(s)
                y = P.a(s) if y is None else y
                x = x * (y.pow(e) if e > 1 else y)
            r = r + x
        return r

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: [(s.uid, e) for s, e in x[0]]):
            mm = "*".join((repr(s) + (f"^{e}" if e > 1 else "")) for s, e in m)
            if not mm:
                out.append(str(c))
            elif c == 1:
                out.append(mm)
            elif c == -1:
                out.append("-" + mm)
            else:
                out.append(f"{c}*{mm}")
        return " + ".join(out).replace("+ -", "- ")


def _n(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return x


ZERO, ONE = P.c(0), P.c(1)


class V:
    """base class of structured immutable values (structural equality)"""
    __slots__ = ("_vh",)
    F = ()

    def key(self):
        return tuple(getattr(self, f) for f in self.F)

    def __hash__(self):
        try:
            return self._vh
        except AttributeError:
            h = hash((type(self).__name__, self.key()))
            self._vh = h
            return h

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and hash(self) == hash(o) and self.key() == o.key())

    def __repr__(self):
        return f"{type(self).__name__}({', '.join(map(repr, self.key()))})"


class Str(V):
    """constant byte string (latin-1 text)"""
    __slots__ = F = ("s",)

    def __init__(self, s):
        self.s = s


class Loc(V):
    __slots__ = F = ("root", "path")

    def __init__(self, root, path=()):
        self.root, self.path = root, path

    def sub(self, x):
        return Loc(self.root, self.path + (x,))


class Rec(V):
    """record value: class id + known fields; unknown fields are selected from base"""
    __slots__ = ("cls", "fields", "base")
    F = ("cls", "fitems", "base")

    def __init__(self, cls, fields, base=None):
        self.cls, self.fields, self.base = cls, fields, base

    @property
    def fitems(self):
        return tuple(sorted(self.fields.items(), key=lambda x: str(x[0])))

    def get(self, n):
        return self.fields.get(n)

    def set(self, n, v):
        d = dict(self.fields)
        d[n] = v
        return Rec(self.cls, d, self.base)

    def __repr__(self):
        return f"Rec<{self.cls}>({', '.join(f'{k}={v!r}' for k, v in self.fields.items())}{'' if self.base is None else ' | ' + repr(self.base)})"


class Vec(V):
    """sequence value: length, ordered writes over a base; base ('fill', v) or ('sym', Sym)
    eltd: description of element construction"""
    __slots__ = F = ("n", "base", "writes")

    def __init__(self, n, base, writes=()):
        self.n, self.base, self.writes = n, base, writes


class Iter(V):
    __slots__ = F = ("loc", "idx", "rev")

    def __init__(self, loc, idx, rev=False):
        self.loc, self.idx, self.rev = loc, idx, rev


class Opt(V):
    __slots__ = F = ("has", "val")

    def __init__(self, has, val):
        self.has, self.val = has, val


class Clo(V):
    __slots__ = F = ("op", "caps", "this", "specs")

    def __init__(self, op, caps, this, specs=()):
        self.op, self.caps, self.this, self.specs = op, caps, this, specs


class Fn(V):
    __slots__ = F = ("f",)

    def __init__(self, f):
        self.f = f


class _Null(V):
    __slots__ = ()


class _Uninit(V):
    __slots__ = ()


class _Void(V):
    __slots__ = ()


NULL, UNINIT, VOID = _Null(), _Uninit(), _Void()


# ------------------------------------------------------------------ conditions
# A boolean is a P: const 0/1 or an atom.  Condition atoms:
#   le0(p,k)  p <= 0     lt0(p,k) p < 0 (floats only)     eq0(p,k)  p == 0
#   not(b)  and(a,b)  or(a,b)        anything else: opaque
def bsym(op, *args):
    return P.a(Sym(op, args, BOOL))


def c_le(a, b, k):  # a <= b
    d = a - b
    c = d.const()
    if c is not None:
        return P.c(c <= 0)
    return bsym("le0", _prim(d, k), k)


def c_lt(a, b, k):
    d = a - b
    c = d.const()
    if c is not None:
        return P.c(c < 0)
    if k == "i":
        return bsym("le0", _prim(d + ONE, k), k)
    return bsym("lt0", _prim(d, k), k)


def _prim(d, k):
    """scale integer polynomial to primitive integer coefficients (positive scaling only)"""
    return d


def c_eq(a, b, k):
    d = a - b
    c = d.const()
    if c is not None:
        return P.c(c == 0)
    f, s, c0 = d.form()
    return bsym("eq0", f + P.c(_n(Fraction(c0) / s)), k)


def c_not(b):
    c = b.const()
    if c is not None:
        return P.c(c == 0)
    a = b.atom()
    if a is not None:
        if a.op == "not":
            return a.args[0]
        if a.op == "le0" and a.args[1] == "i":
            return c_le(ONE, a.args[0], "i")
    return bsym("not", b)


def c_and(a, b):
    if a.const() is not None:
        return b if a.const() else ZERO
    if b.const() is not None:
        return a if b.const() else ZERO
    return bsym("and", a, b)


def c_or(a, b):
    if a.const() is not None:
        return ONE if a.const() else b
    if b.const() is not None:
        return ONE if b.const() else a
    return bsym("or", a, b)


_deepcache = {}


def deep_atoms(x):
    """set of leaf symbols (no args) and all symbols below a value"""
    if isinstance(x, Sym):
        r = _deepcache.get(x)
        if r is None:
            s = {x}
            for a in x.args:
                s |= deep_atoms(a)
            r = frozenset(s)
            _deepcache[x] = r
        return r
    if isinstance(x, P):
        s = set()
        for a in x.atoms():
            s |= deep_atoms(a)
        return s
    if isinstance(x, V):
        s = set()
        for a in x.key():
            s |= deep_atoms(a)
        return s
    if isinstance(x, (tuple, list)):
        s = set()
        for a in x:
            s |= deep_atoms(a)
        return s
    return frozenset()


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


GRAPH = frozenset(range(33, 127))
PRED = {
    "isgraph": lambda c: int(33 <= c <= 126), "isprint": lambda c: int(32 <= c <= 126),
    "isspace": lambda c: int(c in (32, 9, 10, 11, 12, 13)), "isdigit": lambda c: int(48 <= c <= 57),
    "isalpha": lambda c: int(65 <= c <= 90 or 97 <= c <= 122), "isupper": lambda c: int(65 <= c <= 90),
    "islower": lambda c: int(97 <= c <= 122), "isalnum": lambda c: int(48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122),
    "isblank": lambda c: int(c in (32, 9)), "iscntrl": lambda c: int(0 <= c < 32 or c == 127),
    "ispunct": lambda c: int(33 <= c <= 126 and not (48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122)),
    "isxdigit": lambda c: int(48 <= c <= 57 or 65 <= c <= 70 or 97 <= c <= 102),
    "tolower": lambda c: c + 32 if 65 <= c <= 90 else c, "toupper": lambda c: c - 32 if 97 <= c <= 122 else c,
}


FULLCHAR = frozenset(range(-128, 128))
CHAROPS = frozenset(("elem", "strat", "sel", "w", "mem", "fld", "arg"))


class CantEval(Exception):
    pass


def evalp(x, env):
    """value of a polynomial/symbol under an assignment of value-set atoms"""
    if isinstance(x, P):
        tot = 0
        for m, c in x.t.items():
            v = c
            for s, e in m:
                v = v * evals(s, env) ** e
            tot += v
        return tot
    raise CantEval()


def evals(s, env):
    if s in env:
        return env[s]
    op, a = s.op, s.args
    if op == "le0":
        return int(evalp(a[0], env) <= 0)
    if op == "lt0":
        return int(evalp(a[0], env) < 0)
    if op == "eq0":
        return int(evalp(a[0], env) == 0)
    if op == "not":
        return int(not evalp(a[0], env))
    if op == "and":
        return int(bool(evalp(a[0], env)) and bool(evalp(a[1], env)))
    if op == "or":
        return int(bool(evalp(a[0], env)) or bool(evalp(a[1], env)))
    if op == "ite":
        return evalp(a[1], env) if evalp(a[0], env) else evalp(a[2], env)
    if op == "cast":
        return wrapc(evalp(a[0], env), a[1])
    if op == "wrap":
        return evalp(a[0], env) % (1 << a[1])
    if op in PRED:
        return PRED[op](evalp(a[0], env))
    if op in ("div", "mod", "band", "bor", "bxor", "shl", "shr"):
        x, y = evalp(a[0], env), evalp(a[1], env)
        if op == "div":
            if y == 0:
                raise CantEval()
            return tdiv(x, y)
        if op == "mod":
            if y == 0:
                raise CantEval()
            return x - y * tdiv(x, y)
        if op == "band":
            return x & y
        if op == "bor":
            return x | y
        if op == "bxor":
            return x ^ y
        if op == "shl":
            return x << y
        return x >> y
    if op == "abs":
        return abs(evalp(a[0], env))
    if op == "bnot":
        return ~evalp(a[0], env)
    if op == "strat":  # element of a constant string at an evaluated index
        i = evalp(a[1], env)
        t = a[0].s
        if 0 <= i < len(t):
            return wrapc(ord(t[i]), CHAR)
        raise CantEval()
    if op == "strin":  # membership of a character in a constant string
        return int(chr(evalp(a[1], env) & 255) in a[0].s)
    raise CantEval()


def wrapc(v, ty):
    if ty.k == "b":
        return int(v != 0)
    if ty.k == "i":
        v = int(v) & ((1 << ty.w) - 1)
        if ty.sg and v >> (ty.w - 1):
            v -= 1 << ty.w
    return v


INF = float("inf")


class Facts:
    __slots__ = ("iv", "ne", "sets", "at", "conds", "nn")

    def __init__(self):
        self.iv, self.ne, self.sets, self.at, self.conds, self.nn = {}, frozenset(), {}, {}, (), frozenset()

    def copy(self):
        f = Facts()
        f.iv, f.ne, f.sets, f.at, f.conds, f.nn = dict(self.iv), self.ne, dict(self.sets), dict(self.at), self.conds, self.nn
        return f

    def items(self):
        r = set()
        for k, v in self.iv.items():
            r.add(("iv", k, v))
        for x in self.ne:
            r.add(("ne", x))
        for k, v in self.sets.items():
            r.add(("set", k, v))
        for k, v in self.at.items():
            r.add(("at", k, v))
        for c in self.conds:
            r.add(("cond",) + c)
        for x in self.nn:
            r.add(("nn", x))
        return r

    @staticmethod
    def meet_common(fs):
        """facts common to all (join of abstract states); intervals are hulled"""
        r = fs[0].copy()
        for f in fs[1:]:
            for k in list(r.iv):
                o = f.iv.get(k)
                if o is None:
                    del r.iv[k]
                else:
                    a = r.iv[k]
                    lo = min((a[0], not a[1]), (o[0], not o[1]))
                    hi = max((a[2], not a[3]), (o[2], not o[3]))
                    if lo[0] == -INF and hi[0] == INF:
                        del r.iv[k]
                    else:
                        r.iv[k] = (lo[0], not lo[1], hi[0], not hi[1])
            r.ne &= f.ne
            for k in list(r.sets):
                if k in f.sets:
                    r.sets[k] = r.sets[k] | f.sets[k]
                else:
                    del r.sets[k]
            for k in list(r.at):
                if f.at.get(k) != r.at[k]:
                    del r.at[k]
            r.conds = tuple(c for c in r.conds if c in f.conds)
            r.nn &= f.nn
        return r

    # ---------------------------------------------------------------- bounds
    def abounds(self, s):
        lo, hi = -INF, INF
        if s in self.sets and self.sets[s]:
            return (min(self.sets[s]), max(self.sets[s]))
        if isinstance(s.ty, NumTy):
            a, b = s.ty.range()
            if a is not None:
                lo, hi = a, b
        if s.op == "cast" and isinstance(s.args[1], NumTy):
            a, b = s.args[1].range()
            if a is not None:
                lo, hi = max(lo, a), min(hi, b)
        v = self.iv.get(P.a(s))
        if v:
            lo, hi = max(lo, v[0]), min(hi, v[2])
        return (lo, hi)

    def _ivsum(self, p):
        lo = hi = p.k0()
        for m, c in p.t.items():
            if not m:
                continue
            l, h = 1, 1
            if len(m) > 1 or m[0][1] > 1:
                v = self.iv.get(P({m: 1}))
            else:
                v = None
            for s, e in m:
                a, b = self.abounds(s)
                if e % 2 == 0:
                    k = max(_pw(abs(a), e), _pw(abs(b), e))
                    a, b = (0 if a <= 0 <= b else min(_pw(abs(a), e), _pw(abs(b), e))), k
                elif e > 1:
                    a, b = _pw(a, e), _pw(b, e)
                l, h = _mul(l, h, a, b)
            if v:
                l, h = max(l, v[0]), min(h, v[2])
            if c < 0:
                l, h = -_m(-c, h) if False else _m(c, h), _m(c, l)
            else:
                l, h = _m(c, l), _m(c, h)
            lo, hi = lo + l, hi + h
        return lo, hi

    def bounds(self, p, depth=2):
        """(lo, hi) sound closed bounds (strictness dropped)"""
        c = p.const()
        if c is not None:
            return (c, c)
        lo, hi = self._ivsum(p)
        f, s, k = p.form()
        v = self.iv.get(f)
        if v:
            a, b = (v[0], v[2])
            if s > 0:
                lo, hi = max(lo, _m(s, a) + k), min(hi, _m(s, b) + k)
            else:
                lo, hi = max(lo, _m(s, b) + k), min(hi, _m(s, a) + k)
        if depth > 0 and p.linear() is not None:
            # combine with one known form
            vs = p.atoms()
            if len(self.iv) < 400:
                for g, w in self.iv.items():
                    if len(g.t) < 2:
                        continue
                    if not (vs & g.atoms()):
                        continue
                    for m in g.t:
                        if m in p.t:
                            kf = Fraction(p.t[m]) / g.t[m]
                            r = p - g.scale(kf)
                            if len(r.t) > len(p.t) + 1:
                                continue
                            l2, h2 = self.bounds(r, depth - 1) if len(r.t) < len(p.t) + (1 if depth > 1 else 0) else self._ivsum(r)
                            a, b = (w[0], w[2]) if kf > 0 else (w[2], w[0])
                            lo, hi = max(lo, _n2(_m(kf, a) + l2)), min(hi, _n2(_m(kf, b) + h2))
        return lo, hi

    def _dbm(self, p):
        """tightest upper bound of x - y (+strict) through difference facts; p = x - y form"""
        return None

    def strict(self, p):
        """known strictness: returns (lo, lostrict, hi, histrict) of p's form"""
        f, s, k = p.form()
        if f is None:
            return (p.k0(), False, p.k0(), False)
        v = self.iv.get(f)
        if not v:
            return (-INF, False, INF, False)
        a, al, b, bl = v
        if s > 0:
            return (_m(s, a) + k, al, _m(s, b) + k, bl)
        return (_m(s, b) + k, bl, _m(s, a) + k, al)

    # ---------------------------------------------------------------- queries
    def setvars(self, x):
        """the value-set atoms a term depends on, or None if it has other leaves"""
        r = set()
        if not self._sv(x, r):
            return None
        return r

    def _sv(self, x, r):
        if isinstance(x, P):
            return all(self._sv(a, r) for a in x.atoms())
        if isinstance(x, Sym):
            if x in self.sets:
                r.add(x)
                return True
            if x.ty is CHAR and x.op in CHAROPS:
                self.sets[x] = FULLCHAR
                r.add(x)
                return True
            if not x.args:
                return False
            return all(self._sv(a, r) for a in x.args)
        if isinstance(x, (Str, NumTy, str, int)):
            return True
        return False

    def isint(self, p):
        return True

    def query(self, b):
        """truth of boolean P under the facts: True/False/None"""
        c = b.const()
        if c is not None:
            return c != 0
        a = b.atom()
        if a is None:
            lo, hi = self.bounds(b)
            if lo > 0 or hi < 0:
                return True
            if lo == hi == 0:
                return False
            return self._opq(b)
        sv = self.setvars(a)
        if sv is not None and len(sv) == 1:
            (s,) = sv
            try:
                vals = {bool(evals(a, {s: x})) for x in self.sets[s]}
                if len(vals) == 1:
                    return vals.pop()
                return None
            except CantEval:
                pass
        elif sv is not None and len(sv) == 2:
            r = self._pairs(a, sv)
            if r is not None and len(r) == 1:
                return next(iter(r))
        op = a.op
        if op == "not":
            q = self.query(a.args[0])
            return None if q is None else not q
        if op == "and":
            q, r = self.query(a.args[0]), self.query(a.args[1])
            if q is False or r is False:
                return False
            return True if q and r else None
        if op == "or":
            q, r = self.query(a.args[0]), self.query(a.args[1])
            if q or r:
                return True
            return False if q is False and r is False else None
        if op in ("le0", "lt0", "eq0"):
            return self._cmp(op, a.args[0], a.args[1], a)
        if a in self.at:
            return self.at[a]
        lo, hi = self.abounds(a)
        if lo > 0 or hi < 0:
            return True
        if lo == hi == 0:
            return False
        return None

    def _opq(self, b):
        q = self._cmp("eq0", b, "i", None)
        return None if q is None else not q

    def _pairs(self, a, sv):
        x, y = sorted(sv, key=lambda s: s.uid)
        res = set()
        try:
            rel = [c for c in self.conds if deep_atoms(c[0]) & {x, y}]
            for u in self.sets[x]:
                for v in self.sets[y]:
                    env = {x: u, y: v}
                    ok = True
                    for c, t in rel:
                        try:
                            if bool(evals(c, env)) != t:
                                ok = False
                                break
                        except CantEval:
                            pass
                    if ok:
                        res.add(bool(evals(a, env)))
                        if len(res) == 2:
                            return res
        except CantEval:
            return None
        return res

    def _cmp(self, op, p, k, a):
        lo, hi = self.bounds(p)
        sl, ss, sh, sh_s = self.strict(p)
        if op == "le0":
            if hi <= 0:
                return True if (k == "i" or self._nonnan(p)) else None
            if lo > 0 or (sl == 0 and ss):
                return False
            if k == "f" and lo >= 0 and self.strict(p)[:2] == (0, True):
                return False
        elif op == "lt0":
            if hi < 0 or (sh == 0 and sh_s):
                return True
            if lo >= 0:
                return False
        else:
            if lo == hi == 0:
                return True
            if lo > 0 or hi < 0 or (sl == 0 and ss) or (sh == 0 and sh_s):
                return False
            f, s, c = p.form()
            if (f, _n(-Fraction(c) / s)) in self.ne:
                return False
            if k == "i" and any(isinstance(x, Fraction) for x in p.t.values()):
                pass
        if a is not None and a in self.at:
            return self.at[a]
        if k == "f":
            return self._fimplied(op, p)
        return None

    def _nonnan(self, p):
        return True

    def _fimplied(self, op, p):
        # negative float atoms: not(p<=0) recorded etc.
        le = Sym("le0", (p, "f"), BOOL)
        lt = Sym("lt0", (p, "f"), BOOL)
        if op == "lt0" and self.at.get(le) is False:
            return False
        if op == "le0" and self.at.get(lt) is True:
            return True
        return None

    # ---------------------------------------------------------------- assume
    def assume(self, b, truth=True):
        """add a fact; False if contradictory"""
        q = self.query(b)
        if q is not None:
            return q == truth
        a = b.atom()
        if a is None:
            e = Sym("eq0", (b, "i"), BOOL)
            return self._assume_cmp("eq0", b, "i", not truth, e)
        sv = self.setvars(a)
        if sv is not None and len(sv) == 1:
            (s,) = sv
            try:
                n = frozenset(x for x in self.sets[s] if bool(evals(a, {s: x})) == truth)
                if not n:
                    return False
                self.sets[s] = n
                return True
            except CantEval:
                pass
        elif sv is not None and len(sv) >= 2 and a.op not in ("not", "and", "or"):
            self.conds = self.conds + ((a, truth),)
            if len(sv) == 2:
                x, y = sorted(sv, key=lambda s: s.uid)
                try:
                    px, py = set(), set()
                    rel = [c for c in self.conds if deep_atoms(c[0]) & {x, y}]
                    for u in self.sets[x]:
                        for v in self.sets[y]:
                            env = {x: u, y: v}
                            try:
                                if all(bool(evals(c, env)) == t for c, t in rel):
                                    px.add(u)
                                    py.add(v)
                            except CantEval:
                                px.add(u)
                                py.add(v)
                    if not px:
                        return False
                    self.sets[x], self.sets[y] = frozenset(px), frozenset(py)
                except CantEval:
                    pass
            return True
        op = a.op
        if op == "not":
            return self.assume(a.args[0], not truth)
        if op == "and" and truth or op == "or" and not truth:
            return self.assume(a.args[0], truth) and self.assume(a.args[1], truth)
        if op in ("and", "or"):
            # one side known -> other forced
            q, r = self.query(a.args[0]), self.query(a.args[1])
            neutral = (op == "and")
            if q is neutral:
                return self.assume(a.args[1], truth)
            if r is neutral:
                return self.assume(a.args[0], truth)
            self.at[a] = truth
            return True
        if op in ("le0", "lt0", "eq0"):
            return self._assume_cmp(op, a.args[0], a.args[1], truth, a)
        self.at[a] = truth
        return True

    def _add(self, p, lo=None, los=False, hi=None, his=False):
        """lo <= p, p <= hi"""
        f, s, k = p.form()
        if s < 0:
            lo, los, hi, his = hi, his, lo, los
        a, al, b, bl = self.iv.get(f, (-INF, False, INF, False))
        if lo is not None:
            x = _n(Fraction(lo - k) / s)
            if x > a or (x == a and los):
                a, al = x, los
        if hi is not None:
            x = _n(Fraction(hi - k) / s)
            if x < b or (x == b and his):
                b, bl = x, his
        self.iv[f] = (a, al, b, bl)
        if a > b or (a == b and (al or bl)):
            return False
        return True

    def _assume_cmp(self, op, p, k, truth, a):
        self.at[a] = truth
        if k == "f":
            if truth:
                if op == "le0":
                    ok = self._add(p, hi=0)
                elif op == "lt0":
                    ok = self._add(p, hi=0, his=True)
                else:
                    ok = self._add(p, lo=0, hi=0)
                if not ok:
                    return False
                # positive comparison: operands are not NaN -> denied comparisons become facts
                self.nn |= frozenset(p.atoms())
                return self._flush_nan()
            if op in ("le0", "lt0") and p.atoms() <= self.nn:
                return self._add(p, lo=0, los=(op == "le0"))
            if op == "eq0":
                f, s, c = p.form()
                self.ne |= {(f, _n(-Fraction(c) / s))}
            return self._close()
        if op == "le0":
            ok = self._add(p, hi=0) if truth else self._add(p, lo=1)
        elif op == "lt0":
            ok = self._add(p, hi=-1) if truth else self._add(p, lo=0)
        else:
            if truth:
                ok = self._add(p, lo=0, hi=0)
            else:
                f, s, c = p.form()
                self.ne |= {(f, _n(-Fraction(c) / s))}
                ok = True
        return ok and self._close()

    def _flush_nan(self):
        for s, t in list(self.at.items()):
            if t is False and s.op in ("le0", "lt0") and s.args[1] == "f" and s.args[0].atoms() <= self.nn:
                if not self._add(s.args[0], lo=0, los=(s.op == "le0")):
                    return False
        return self._close()

    def _close(self):
        """propagate difference constraints to detect contradictions; tighten with != facts"""
        changed = True
        rounds = 0
        while changed and rounds < 4:
            changed = False
            rounds += 1
            for f, c in self.ne:
                lo, hi = self.bounds(f)
                if lo == hi == c:
                    return False
                intlike = all(isinstance(x, int) for x in f.t.values()) and all(
                    not (isinstance(s.ty, NumTy) and s.ty.k == "f") for s in f.atoms())
                if intlike:
                    if lo == c:
                        if not self._add(f, lo=c + 1):
                            return False
                        changed = True
                    elif hi == c:
                        if not self._add(f, hi=c - 1):
                            return False
                        changed = True
        # difference graph: negative cycle check
        edges = []
        for f, (a, al, b, bl) in self.iv.items():
            ms = [(m, c) for m, c in f.t.items()]
            if len(ms) == 1 and ms[0][1] == 1:
                x, y = ms[0][0], None
            elif len(ms) == 2 and ms[0][1] * ms[1][1] == -1:
                (m1, c1), (m2, c2) = ms
                x, y = (m1, m2) if c1 == 1 else (m2, m1)
            else:
                continue
            if b != INF:
                edges.append((y, x, b, bl))   # x <= y + b
            if a != -INF:
                edges.append((x, y, -a, al))  # y <= x - a
        nodes = {n for e in edges for n in e[:2]}
        for n in list(nodes):
            if n is not None and len(n) == 1 and n[0][1] == 1:
                lo, hi = self.abounds(n[0][0])
                if hi != INF:
                    edges.append((None, n, hi, False))
                if lo != -INF:
                    edges.append((n, None, -lo, False))
        nodes.add(None)
        dist = {n: (0, 0) for n in nodes}
        for it in range(len(nodes) + 1):
            upd = False
            for u, v, w, s in edges:
                d = (dist[u][0] + w, dist[u][1] - (1 if s else 0))
                if d < dist[v]:
                    dist[v] = d
                    upd = True
            if not upd:
                break
        else:
            return False
        return True

    def entails(self, b, truth=True):
        q = self.query(b)
        if q is not None:
            return q == truth
        f = self.copy()
        return not f.assume(b, not truth)

    def consistent_with(self, *bs):
        f = self.copy()
        for b in bs:
            if not f.assume(b, True):
                return False
        return True


def _m(c, x):
    if x in (INF, -INF):
        if c == 0:
            return 0
        return x if c > 0 else -x
    return _n(c * x)


def _n2(x):
    if x in (INF, -INF) or x != x:
        return x
    return _n(x)


def _pw(a, e):
    return a ** e


def _mul(a, b, c, d):
    vals = []
    for x in (a, b):
        for y in (c, d):
            if x == 0 or y == 0:
                vals.append(0)
            else:
                vals.append(x * y)
    return min(vals), max(vals)
