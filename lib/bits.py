"""Bit-level abstract domain: integer values as GF(2)-affine forms over named input bits plus tables of
non-linear byte functions.  A value of w bits is

    const  xor  (xor of mask_b over the input bits b that are set)  xor  (xor of N_a(v_a) over atoms a)

where an atom stands for a byte-sized value v_a and N_a is a 256 entry table without affine part.  Shifts, masks,
xor, disjoint or and conversions are exact linear maps; functions of one byte are tabulated and their affine part is
folded back into the linear form, so equal functions built in different ways get equal forms.  Sums and products of
wide words become opaque words that are named by their canonical linear combination modulo 2^w."""
from interp import *

_bits, _bname = {}, []      # name of a bit <-> number
_atoms, _adef = {}, []      # canonical value of an atom <-> number
_words = {}                 # (canonical sum, width) <-> opaque word
_wsum = {}
LIMIT = 8


_opq = {}                   # name of an opaque word -> (function, operands, width)
_opn = {}


def opaque(kind, fn, ops, w):
    """the word fn(ops) that is not analysed any further; equal operations give the same word"""
    key = (kind, tuple(x.key() for x in ops), w)
    v = _opn.get(key)
    if v is None:
        name = ("op", len(_opn))
        _opq[name] = (fn, list(ops), w)
        v = _opn[key] = word(name, w)
    return v


def evaluate(v, env, memo):
    """value of v where env gives the input bits"""
    x = v.c
    for b, m in v.lin.items():
        name, i = _bname[b]
        if name in _opq:
            y = memo.get(name)
            if y is None:
                fn, ops, _ = _opq[name]
                y = memo[name] = fn(*[evaluate(o, env, memo) for o in ops])
            if y >> i & 1:
                x ^= m
        elif env(b):
            x ^= m
    for a, t in v.tab.items():
        y = memo.get(a)
        if y is None:
            y = memo[a] = evaluate(_adef[a], env, memo)
        x ^= t[y]
    return x


def conditions(v, seen):
    """what v is selected by: affine words that are compared with zero, one bit functions of a byte"""
    out = []
    for b in v.lin:
        name = _bname[b][0]
        if name in _opq and name not in seen:
            seen.add(name)
            fn, ops, w = _opq[name]
            if w == 1 and len(ops) == 1 and not ops[0].tab and all(_bname[x][0] not in _opq for x in ops[0].lin):
                out.append(("zero", ops[0]))
            if len(ops) == 3 and not ops[0].possible() & ~1 and len(ops[0].leaves()) <= LIMIT and all(_bname[x][0] not in _opq for x in ops[0].leaves()):
                out.append(("one", ops[0]))
            for o in ops:
                out += conditions(o, seen)
    for a in v.tab:
        if ("a", a) not in seen:
            seen.add(("a", a))
            out += conditions(_adef[a], seen)
    return out


def satisfy(cond, env, rnd):
    k, v = cond
    if k == "zero":
        return solve(v, env)
    lv = sorted(v.leaves())
    ok = [n for n in range(1 << len(lv)) if v.value({b: n >> i & 1 for i, b in enumerate(lv)}) & 1]
    if ok:
        n = rnd.choice(ok)
        for i, b in enumerate(lv):
            env[b] = n >> i & 1


def solve(v, env):
    """change the assignment (dict) such that the affine word v becomes zero; False if impossible"""
    rows = []
    for i in range(v.possible().bit_length()):
        f = {b for b, m in v.lin.items() if m >> i & 1}
        k = v.c >> i & 1
        for p, g, h in rows:
            if p in f:
                f, k = f ^ g, k ^ h
        if f:
            rows.append((min(f), f, k))
        elif k:
            return False
    for p, f, k in reversed(rows):
        env[p] = (k ^ sum(env[b] for b in f if b != p)) & 1
    return True


def differ(a, b, tries=400):
    """are the values different for some input?  True with a witness, False if the forms agree, None if unknown"""
    if a is None or b is None:
        return None
    if a == b:
        return False
    d = a ^ b
    import random
    rnd = random.Random(12345)
    conds = conditions(d, set())

    def assignment(mode):
        env = {}

        class E(dict):
            def __missing__(self, b):
                self[b] = x = mode if mode in (0, 1) else rnd.getrandbits(1)
                return x
        return E()
    for n in range(tries):
        env = assignment(n if n < 2 else 2)
        if n >= 2 and conds and n % 2:
            cs = conds if n % 4 == 1 else rnd.sample(conds, min(len(conds), 1 + rnd.randrange(3)))
            for x in cs:
                satisfy(x, env, rnd)
        if evaluate(d, lambda b: env[b], {}):
            return True
    return None


def same(a, b):
    r = differ(a, b)
    return None if r is None else not r


def bit(name):
    i = _bits.get(name)
    if i is None:
        i = _bits[name] = len(_bname)
        _bname.append(name)
    return i


class Bv:
    """immutable; lin: bit -> mask, tab: atom -> tuple of 256 values"""
    __slots__ = ("c", "lin", "tab", "_k")

    def __init__(self, c, lin=None, tab=None):
        self.c, self.lin, self.tab, self._k = c, lin or {}, tab or {}, None

    def key(self):
        if self._k is None:
            self._k = (self.c, tuple(sorted(self.lin.items())), tuple(sorted(self.tab.items())))
        return self._k

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Bv) and self.key() == o.key()

    def __repr__(self):
        return "bv(%x+%d bits+%d tables)" % (self.c, len(self.lin), len(self.tab))

    def const(self):
        return None if self.lin or self.tab else self.c

    def possible(self):
        m = 0
        for x in self.lin.values():
            m |= x
        for t in self.tab.values():
            m |= tmask(t)
        return m

    def __xor__(self, o):
        lin, tab = dict(self.lin), dict(self.tab)
        for b, m in o.lin.items():
            m ^= lin.get(b, 0)
            if m:
                lin[b] = m
            else:
                lin.pop(b, None)
        for a, t in o.tab.items():
            u = tab.get(a)
            if u is not None:
                t = tuple([x ^ y for x, y in zip(t, u)])
            if u is None or any(t):
                tab[a] = t
            else:
                tab.pop(a, None)
        return Bv(self.c ^ o.c, lin, tab)

    def map(self, f):
        """f: linear map of bit vectors given as a function with f(0) = 0, f(x^y) = f(x)^f(y)"""
        lin = {}
        for b, m in self.lin.items():
            m = f(m)
            if m:
                lin[b] = m
        tab = {}
        for a, t in self.tab.items():
            t = tmap(t, f)
            if any(t):
                tab[a] = t
        return Bv(f(self.c), lin, tab)

    def leaves(self):
        r = set(self.lin)
        for a in self.tab:
            r |= aleaves(a)
        return r

    def value(self, env):
        x = self.c
        for b, m in self.lin.items():
            if env[b]:
                x ^= m
        for a, t in self.tab.items():
            x ^= t[_adef[a].value(env)]
        return x


_tm, _al = {}, {}


def tmask(t):
    m = _tm.get(t)
    if m is None:
        m = 0
        for x in t:
            m |= x
        _tm[t] = m
    return m


def tmap(t, f):
    return tuple([f(x) for x in t])


def aleaves(a):
    r = _al.get(a)
    if r is None:
        r = _al[a] = frozenset(_adef[a].leaves())
    return r


def word(name, w):
    return Bv(0, {bit((name, i)): 1 << i for i in range(w)})


def atom(v):
    """the number of the byte-sized value v (without constant)"""
    a = _atoms.get(v)
    if a is None:
        a = _atoms[v] = len(_adef)
        _adef.append(v)
    return a


def pointwise(v, f):
    """f applied to v (None if v is too wide); f(None) marks an impossible argument"""
    pm = v.possible()
    bits = [i for i in range(pm.bit_length()) if pm >> i & 1]
    lv = v.leaves()
    if len(lv) <= LIMIT:
        # a function of at most 8 input bits: tabulate over these
        lv = sorted(lv)
        base = Bv(0, {b: 1 << i for i, b in enumerate(lv)})
        vals = [f(v.value({b: k >> i & 1 for i, b in enumerate(lv)})) for k in range(1 << len(lv))]
        return fold(base, vals)
    if len(bits) > LIMIT or pm >= 1 << 24:
        return None
    if len(bits) == pm.bit_length():
        base = Bv(0, v.lin, v.tab)
        vals = [f(k ^ v.c) for k in range(1 << len(bits))]
        return fold(base, vals)
    base = Bv(0, v.lin, v.tab).map(lambda x: sum(((x >> b) & 1) << i for i, b in enumerate(bits)))
    vals = [f(v.c ^ sum((k >> i & 1) << b for i, b in enumerate(bits))) for k in range(1 << len(bits))]
    return fold(base, vals)


def fold(base, vals):
    """the function with table vals over the value base (constant 0, dense bits)"""
    n = len(vals).bit_length() - 1
    c = vals[0]
    cols = [vals[1 << i] ^ c for i in range(n)]

    def lin(x):
        r, i = 0, 0
        while x:
            if x & 1:
                r ^= cols[i]
            x >>= 1
            i += 1
        return r
    nl = [vals[k] ^ c ^ lin(k) for k in range(len(vals))]
    r = base.map(lin) ^ Bv(c)
    if any(nl):
        a = atom(base)
        r = r ^ Bv(0, {}, {a: tuple(nl + [0] * (256 - len(nl)))})
    return r


# ------------------------------------------------------------------ sums of wide words
def parts(v, w):
    """v as a linear combination modulo 2^w: {(odd part key): coefficient}, constant"""
    s = _wsum.get((v.key(), w))
    if s is not None:
        return dict(s[0]), s[1]
    if v.const() is not None:
        return {}, v.c
    pm = v.possible()
    if v.c & ~pm == v.c and v.c and not (v.c & pm):
        t, c = parts(Bv(0, v.lin, v.tab), w)
        return t, c + v.c
    z = ((pm | v.c) & -(pm | v.c)).bit_length() - 1
    return {v.map(lambda x: x >> z): 1 << z}, 0


def linsum(terms, w):
    """canonical value of sum of coefficient * value modulo 2^w"""
    M = (1 << w) - 1
    tot, c0 = {}, 0
    for k, v in terms:
        t, c = parts(v, w)
        c0 += k * c
        for x, cc in t.items():
            tot[x] = tot.get(x, 0) + k * cc
    c0 &= M
    # c * x modulo 2^w depends on the low w - z bits of x only (z: trailing zeros of c)
    norm = {}
    for x, k in sorted(tot.items(), key=lambda i: ((i[1] & -i[1]).bit_length() if i[1] & M else 999, repr(i[0].key()))):
        k &= M
        if not k:
            continue
        z = (k & -k).bit_length() - 1
        m = (1 << (w - z)) - 1
        low = x.map(lambda y: y & m)
        for y in norm:
            if y.map(lambda q: q & m) == low:
                norm[y] = (norm[y] + k) & M
                break
        else:
            norm[low] = k
    norm = {x: k for x, k in norm.items() if k}
    if not norm:
        return Bv(c0)
    if len(norm) == 1:
        (x, k), = norm.items()
        if k & (k - 1) == 0:
            y = x.map(lambda q: (q * k) & M)
            if not c0:
                return y
            if not (c0 & y.possible()):
                return y ^ Bv(c0)
    key = (frozenset(norm.items()), c0, w)
    v = _words.get(key)
    if v is None:
        name = ("sum", len(_words), w)
        v = _words[key] = word(name, w)
        ks = list(norm.values())
        _opq[name] = (lambda *xs: (c0 + sum(k * x for k, x in zip(ks, xs))) & M, list(norm), w)
        _wsum[(v.key(), w)] = (norm, c0)
    return v


# ------------------------------------------------------------------ interpreter over the domain
class Tab(V):
    """row of a constant table selected by a symbolic index"""
    __slots__ = ("rows", "idx")

    def __init__(self, rows, idx):
        self.rows, self.idx = tuple(rows), idx


def lower(v, ty):
    """Bv of the bit pattern -> value of the interpreter"""
    c = v.const()
    if c is not None:
        return P.c(wrapc(c, ty) if ty.k == "i" else int(c != 0))
    return P.a(Sym("bits", (v,), ty))


class BitInterp(Interp):
    def __init__(self, prog, **kw):
        super().__init__(prog, unroll=1024, **kw)
        self.rows = {}

    def lift(self, p, w):
        """bit pattern of p in w bits, None if outside the domain"""
        if not isinstance(p, P):
            return None
        c = p.const()
        if c is not None:
            return Bv(c & ((1 << w) - 1)) if isinstance(c, int) else None
        a = p.atom()
        if a is None:
            r = []
            for m, k in p.t.items():   # a sum that was formed elsewhere
                if not m:
                    r.append((k, Bv(1)))
                    continue
                if len(m) != 1 or m[0][1] != 1 or not isinstance(k, int):
                    return None
                x = self.lift(P.a(m[0][0]), w)
                if x is None:
                    return None
                r.append((k, x))
            return self.addv(r, w)
        if a.op == "not" and isinstance(a.args[0], P):
            v = self.lift(a.args[0], 1)
            return None if v is None else v ^ Bv(1)
        if a.op in ("band", "bor") and a.ty is BOOL:
            xs = [self.lift(x, 1) for x in a.args]
            return None
        if a.op != "bits":
            return None
        v, ty = a.args[0], a.ty
        if ty.k == "b":
            return v
        if w > ty.w and ty.sg:
            hi = ((1 << w) - 1) ^ ((1 << ty.w) - 1)
            return v.map(lambda x: x | hi if x >> (ty.w - 1) & 1 else x)
        m = (1 << w) - 1
        return v.map(lambda x: x & m) if w < ty.w else v

    def addv(self, terms, w):
        M = (1 << w) - 1
        live = [(k, v) for k, v in terms if v.const() is None]
        c = sum(k * v.c for k, v in terms if v.const() is not None) & M
        if not live:
            return Bv(c)
        lv = set().union(*[v.leaves() for _, v in live])
        if len(lv) <= LIMIT:
            lv = sorted(lv)
            base = Bv(0, {b: 1 << i for i, b in enumerate(lv)})
            vals = []
            for n in range(1 << len(lv)):
                env = {b: n >> i & 1 for i, b in enumerate(lv)}
                vals.append((c + sum(k * v.value(env) for k, v in live)) & M)
            return fold(base, vals)
        if all(k == 1 for k, _ in live):
            seen, ok = c, True
            r = Bv(c)
            for _, v in live:
                pm = v.possible() | v.c
                ok &= not (seen & pm)
                seen |= pm
                r = r ^ v
            if ok:
                return r
        if len(live) == 1 and (live[0][0] + 1) & M == 0 and c == M:
            return live[0][1].map(lambda x: x & M) ^ Bv(M)      # -x - 1 is the complement
        if len(live) == 1:
            k, v = live[0]
            r = pointwise(v, lambda x: (k * x + c) & M)
            if r is not None:
                return r
        return linsum(live + ([(1, Bv(c))] if c else []), w)

    def fit(self, st, p, ty):
        if ty is not None and ty.k == "i" and p.const() is None:
            v = self.lift(p, ty.w)
            if v is not None:
                return lower(v, ty)
        return super().fit(st, p, ty)

    def castint(self, st, p, ty):
        if p.const() is None and ty.k == "i":
            v = self.lift(p, ty.w)
            if v is not None:
                return lower(v, ty)
        return super().castint(st, p, ty)

    def conv(self, st, v, frm, to):
        if isinstance(v, P) and v.const() is None and frm is not None and to is not None and frm.k in "ib" and to.k == "i" and frm is not to:
            x = self.lift(v, to.w)
            if x is not None:
                return lower(x, to)
        return super().conv(st, v, frm, to)

    def typed(self, v, ti):
        if isinstance(v, P) and v.atom() is not None and v.atom().op == "bits":
            return v
        return super().typed(v, ti)

    def tobool(self, st, v):
        if isinstance(v, P) and v.atom() is not None and v.atom().op == "bits" and v.atom().ty.k != "b":
            return self.cmp(st, "!=", v, ZERO)
        return super().tobool(st, v)

    def cmp(self, st, op, a, b):
        """comparison as a one bit value"""
        f = {"==": lambda x, y: x == y, "!=": lambda x, y: x != y, "<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y}[op]
        tys = [x.atom().ty for x in (a, b) if x.const() is None and x.atom() is not None]
        w = max([t.w for t in tys] + [32])
        x, y = self.lift(a, w), self.lift(b, w)
        if x is None or y is None or any(t.k == "i" and t.sg and t.w == w for t in tys) and ((x.possible() | x.c | y.possible() | y.c) >> (w - 1)):
            return None
        if op in ("==", "!="):
            d = x ^ y
            pm = d.possible()
            if d.c & ~pm:
                return P.c(op == "!=")
            if not pm:
                return P.c(op == "==")
            x, y = d, Bv(0)
        elif (x.possible() | x.c) < (y.c & ~y.possible()):
            return P.c(op in ("<", "<="))
        lv = x.leaves() | y.leaves()
        if len(lv) <= LIMIT:
            lv = sorted(lv)
            vals = []
            for n in range(1 << len(lv)):
                env = {b: n >> i & 1 for i, b in enumerate(lv)}
                vals.append(int(f(x.value(env), y.value(env))))
            if len(set(vals)) == 1:
                return P.c(vals[0])
            return lower(fold(Bv(0, {b: 1 << i for i, b in enumerate(lv)}), vals), BOOL)
        if y.const() is not None:
            r = pointwise(x, lambda k: int(f(k, y.c)))
            if r is not None:
                return lower(r, BOOL)
        if y.const() == 0:
            return lower(opaque(op, lambda p: int(f(p, 0)), [x], 1), BOOL)
        return lower(opaque(op, lambda p, q: int(f(p, q)), [x, y], 1), BOOL)

    def compare(self, st, op, a, b, fl):
        if not fl and isinstance(a, P) and isinstance(b, P) and (a.const() is None or b.const() is None):
            r = self.cmp(st, op, a, b)
            if r is not None:
                return r
        return super().compare(st, op, a, b, fl)

    def arith(self, st, op, a, b, ty):
        if not isinstance(a, P) or not isinstance(b, P) or ty is None or ty.k != "i" or (a.const() is not None and b.const() is not None):
            return super().arith(st, op, a, b, ty)
        w = ty.w
        x = self.lift(a, w)
        y = self.lift(b, w)
        if x is None or y is None:
            return super().arith(st, op, a, b, ty)
        M = (1 << w) - 1
        kx, ky = x.const(), y.const()
        neg = ty.sg and ((x.possible() | x.c | y.possible() | y.c) >> (w - 1))
        r = None
        if op == "^":
            r = x ^ y
        elif op in "&|" and (kx is not None or ky is not None):
            k, v = (kx, y) if kx is not None else (ky, x)
            r = v.map(lambda q: q & k) if op == "&" else v.map(lambda q: q & ~k) ^ Bv(k)
        elif op in "&|" and not ((x.possible() | x.c) & (y.possible() | y.c)):
            r = x ^ y if op == "|" else Bv(0)
        elif op in "&|" and x == y:
            r = x
        elif op == "<<" and ky is not None:
            r = x.map(lambda q: (q << ky) & M)
        elif op == ">>" and ky is not None and not neg:
            r = x.map(lambda q: q >> ky)
        elif op == ">>" and ky is not None:
            top = w - 1
            r = x.map(lambda q: (q >> ky) | ((M ^ (M >> ky)) if q >> top & 1 else 0))
        elif op == "+":
            r = self.addv([(1, x), (1, y)], w)
        elif op == "-":
            r = self.addv([(1, x), (-1, y)], w)
        elif op == "*" and (kx is not None or ky is not None):
            k, v = (kx, y) if kx is not None else (ky, x)
            if bin(k).count("1") == 1:
                z = k.bit_length() - 1
                r = v.map(lambda q: (q << z) & M)
            elif bin(v.possible()).count("1") == 1 and not v.c:
                z = v.possible().bit_length() - 1
                r = v.map(lambda q: ((q >> z) * k << z) & M)
            else:
                r = self.addv([(k, v)], w)
        elif op in "/%" and ky and ky & (ky - 1) == 0 and not neg:
            z = ky.bit_length() - 1
            r = x.map(lambda q: q >> z) if op == "/" else x.map(lambda q: q & (ky - 1))
        if r is None and not neg:
            fn = {"&": lambda p, q: p & q, "|": lambda p, q: p | q, "+": lambda p, q: (p + q) & M, "-": lambda p, q: (p - q) & M, "*": lambda p, q: (p * q) & M,
                  "/": lambda p, q: p // q if q else 0, "%": lambda p, q: p % q if q else 0, "<<": lambda p, q: (p << q) & M if q < w else 0, ">>": lambda p, q: p >> q}.get(op)
            lv = x.leaves() | y.leaves()
            if fn and len(lv) <= LIMIT:
                lv = sorted(lv)
                vals = []
                for n in range(1 << len(lv)):
                    env = {b: n >> i & 1 for i, b in enumerate(lv)}
                    vals.append(fn(x.value(env), y.value(env)))
                r = fold(Bv(0, {b: 1 << i for i, b in enumerate(lv)}), vals)
            elif fn and ky is not None:
                r = pointwise(x, lambda q: fn(q, ky))
            elif fn and kx is not None:
                r = pointwise(y, lambda q: fn(kx, q))
        if r is None:
            fn = {"&": lambda p, q: p & q, "|": lambda p, q: p | q, "*": lambda p, q: (p * q) & M,
                  "/": lambda p, q: p // q if q else 0, "%": lambda p, q: p % q if q else 0, "<<": lambda p, q: (p << q) & M if q < w else 0, ">>": lambda p, q: p >> q}.get(op)
            if fn is None or neg and op not in "&|*":
                self.unk("bit operation " + op)
            r = opaque(op, fn or (lambda p, q: 0), [x, y], w)
            # bits the result cannot have are dropped
            px, py = x.possible() | x.c, y.possible() | y.c
            top = {"&": min(px, py), "%": (1 << (ky - 1).bit_length()) - 1 if ky else M, "/": (1 << (px // ky).bit_length()) - 1 if ky else px, "|": px | py}.get(op)
            if top is not None and not neg and top & M != M:
                top = px & py if op == "&" else top
                r = r.map(lambda q: q & top)
        return lower(r, ty)

    # -------------------------------------------------------------- alternatives are merged bit by bit
    def condbit(self, p):
        a = p.atom() if isinstance(p, P) else None
        if a is not None and (a.op == "bits" or a.op == "not"):
            v = self.lift(p, 1)
            return None if v is None or v.const() is not None else v
        return None

    def branch(self, st, b):
        if not isinstance(b, P):
            b = self.tobool(st, b)
        c = self.condbit(b)
        if c is None:
            return super().branch(st, b)
        for k, t in st.tags.get("$bits", ()):
            if (k ^ c).const() is not None:    # decided before
                return [(st, bool(t ^ (k ^ c).c & 1))]
        if len(st.tags.get("$bits", ())) > 300:
            raise AnalysisBroken("too many decisions on symbolic words")
        self.nstates += 1
        if self.nstates > self.max_states:
            raise AnalysisBroken("state budget exceeded")
        y = st.fork()
        st.tags["$bits"] = st.tags.get("$bits", ()) + ((c, 1),)
        y.tags["$bits"] = y.tags.get("$bits", ()) + ((c, 0),)
        return [(st, True), (y, False)]

    def collect(self, paths):
        """one path for all: the results are selected by the decisions on symbolic words that were taken"""
        def go(ps, d):
            if len(ps) == 1:
                q = ps[0]
                return q.val, q.st
            ks = [q.st.tags.get("$bits", ()) for q in ps]
            if any(len(k) <= d for k in ks) or len({k[d][0] for k in ks}) != 1:
                return None
            A = go([q for q, k in zip(ps, ks) if k[d][1]], d + 1) if any(k[d][1] for k in ks) else None
            B = go([q for q, k in zip(ps, ks) if not k[d][1]], d + 1) if not all(k[d][1] for k in ks) else None
            if A is None or B is None:
                return None
            c = ks[0][d][0]
            v = self.mux(c, A[0], B[0]) if not (A[0] is VOID and B[0] is VOID) else VOID
            s, t = A[1], B[1]
            s.ab = t.ab = None
            u = self.unite(c, s, t)
            return None if v is None or u is None else (v, u)
        if len({q.kind for q in paths}) != 1:
            return None
        r = go(list(paths), 0)
        if r is None:
            return None
        q = paths[0]
        q.val, q.st = r
        return q

    def mux(self, c, a, b):
        """c ? a : b as value of the interpreter, None if that is no number"""
        if a == b:
            return a
        if isinstance(a, P) and isinstance(b, P):
            tys = [x.atom().ty for x in (a, b) if x.const() is None and x.atom() is not None]
            ty = max(tys, key=lambda t: t.w) if tys else NumTy("i", 64, True)
            if ty.k == "b":
                ty = NumTy("i", 8, False)
            x, y = self.lift(a, ty.w), self.lift(b, ty.w)
            if x is None or y is None:
                return None
            d = x ^ y
            if d.const() is not None:
                return lower(y ^ c.map(lambda q: d.c if q & 1 else 0), ty)
            lv = c.leaves() | x.leaves() | y.leaves()
            if len(lv) <= LIMIT:
                lv = sorted(lv)
                vals = []
                for n in range(1 << len(lv)):
                    env = {q: n >> i & 1 for i, q in enumerate(lv)}
                    vals.append((x if c.value(env) else y).value(env))
                return lower(fold(Bv(0, {q: 1 << i for i, q in enumerate(lv)}), vals), ty)
            return lower(opaque("mux", lambda p, q, r: q if p else r, [c, x, y], ty.w), ty)
        if isinstance(a, Vec) and isinstance(b, Vec) and self.row(a) and self.row(b) and len(self.row(a)) == len(self.row(b)):
            out = [self.mux(c, x, y) for x, y in zip(self.row(a), self.row(b))]
            return None if None in out else Vec(a.n, ("fill", ZERO), tuple((P.c(i), x) for i, x in enumerate(out)))
        if isinstance(a, Rec) and isinstance(b, Rec) and a.cls == b.cls and a.fields.keys() == b.fields.keys():
            out = {k: self.mux(c, a.fields[k], b.fields[k]) for k in a.fields}
            return None if None in out.values() else Rec(a.cls, out, a.base)
        if a is UNINIT or b is UNINIT:
            return UNINIT
        return None

    def unite(self, c, s, t):
        """the state that is s where c holds and t otherwise, None if they differ in more than numbers"""
        if s.ab or t.ab or s.ev != t.ev:
            return None
        store = {}
        for k in s.store.keys() & t.store.keys():
            x = self.mux(c, s.store[k], t.store[k])
            if x is None:
                return None
            store[k] = x
        for k in s.store.keys() ^ t.store.keys():
            store[k] = s.store[k] if k in s.store else t.store[k]
        s.store.clear()
        s.store.update(store)
        s.ctr = max(s.ctr, t.ctr)
        return s

    def s_if(self, s, st, fr):
        if s.get("init") is None and s.get("cv") is None:
            vs = self.ev(s["c"], st, fr)
            if len(vs) == 1 and not vs[0][0].ab:
                x, v = vs[0]
                b = self.tobool(x, self.rv(x, v))
                c = self.condbit(b)
                if c is None:
                    out = []
                    for y, t in self.branch(x, b):
                        body = s["a"] if t else s.get("b")
                        out.extend(self.exec(body, y, fr) if body is not None else [y])
                    return out
                y = x.fork()
                A = self.exec(s["a"], x, fr)
                B = self.exec(s["b"], y, fr) if s.get("b") is not None else [y]
                if len(A) == 1 and len(B) == 1:
                    u = self.unite(c, A[0], B[0])
                    if u is not None:
                        return [u]
                return A + B
            out = []
            for x, v in vs:
                if x.ab:
                    out.append(x)
                    continue
                for y, t in self.branch(x, self.tobool(x, self.rv(x, v))):
                    body = s["a"] if t else s.get("b")
                    out.extend(self.exec(body, y, fr) if body is not None else [y])
            return out
        return super().s_if(s, st, fr)

    def e_cond(self, e, st, fr):
        vs = self.ev(e["c"], st.fork(), fr)
        if len(vs) == 1 and not vs[0][0].ab:
            x, v = vs[0]
            c = self.condbit(self.tobool(x, self.rv(x, v)))
            if c is not None:
                A, B = self.ev(e["a"], x.fork(), fr), self.ev(e["b"], x, fr)
                if len(A) == 1 and len(B) == 1 and not A[0][0].ab and not B[0][0].ab:
                    m = self.mux(c, self.rv(A[0][0], A[0][1]), self.rv(B[0][0], B[0][1]))
                    u = self.unite(c, A[0][0], B[0][0]) if m is not None else None
                    if u is not None:
                        return [(u, m)]
        return super().e_cond(e, st, fr)

    # -------------------------------------------------------------- constant tables
    def bvidx(self, idx):
        if isinstance(idx, P) and idx.const() is None:
            return self.lift(idx, 64)
        return None

    def elem(self, st, v, idx):
        if isinstance(v, Vec):
            k = idx.const()
            if k is not None:
                r = self.row(v)
                if r is not None and isinstance(k, int) and 0 <= k < len(r):
                    return r[k]
                return super().elem(st, v, idx)
        i = self.bvidx(idx)
        if isinstance(v, Tab):
            c = idx.const() if isinstance(idx, P) else None
            if c is not None:
                return self.entry([self.elem(st, r, idx) for r in v.rows], v.idx, st)
            if i is not None:
                n = max(len(r) if isinstance(r, (list, tuple)) else self.count(r) or 0 for r in v.rows)
                sh = max((i.possible() | i.c).bit_length(), 1)
                joint = i ^ v.idx.map(lambda x: x << sh)
                rows = [[self.elem(st, r, P.c(k)) for k in range(min(n, 1 << sh))] for r in v.rows]
                flat = []
                for r in rows:
                    flat += r + [None] * ((1 << sh) - len(r))
                return self.entry(flat, joint, st)
        if i is not None and isinstance(v, Vec):
            n = self.count(v)
            if n is not None and n <= 4096:
                return self.entry(self.row(v) or [self.elem(st, v, P.c(k)) for k in range(n)], i, st)
        return super().elem(st, v, idx)

    def row(self, v):
        """elements of an array of constant size that is only written at constant positions"""
        r = self.rows.get(id(v))
        if r is None or r[0] is not v:
            n, x = self.count(v), None
            if n is not None and n <= 4096:
                d = {}
                for j, y in v.writes:
                    j = j.const()
                    if j is None:
                        d = None
                        break
                    d[j] = y
                if d is not None:
                    f = v.base[0] == "fill"
                    x = [d[k] if k in d else v.base[1] if f else Sym("elem", (v.base[1], P.c(k))) for k in range(n)]
            if len(self.rows) > 20000:
                self.rows.clear()
            r = self.rows[id(v)] = (v, x)
        return r[1]

    def count(self, v):
        c = v.n.const() if isinstance(v, Vec) else None
        return c if isinstance(c, int) else None

    def entry(self, rows, i, st):
        if all(r is None or isinstance(r, (Vec, Tab)) for r in rows):
            return Tab(rows, i)
        cs = [r.const() if isinstance(r, P) else None for r in rows]
        if any(r is not None and c is None for r, c in zip(rows, cs)):
            return Sym("elem", (Tab(rows, i), ZERO))
        miss = []

        def f(k):
            if k < len(cs) and cs[k] is not None:
                return cs[k]
            miss.append(k)
            return 0
        r = pointwise(i, f)
        if r is None:
            return Sym("elem", (Tab(rows, i), ZERO))
        if miss:
            st.ev = st.ev + [("oob", "table index %r of %d entries" % (sorted(set(miss))[:3], len(cs)))]
        return P.a(Sym("bits", (r,), U64)) if r.const() is None else P.c(r.c)


def bits_of(p, w):
    """value of the interpreter -> Bv of w bits (None: outside the domain)"""
    return BitInterp.lift(_probe, p, w)


class _Probe(BitInterp):
    def __init__(self):
        pass


_probe = _Probe()
