"""Abstract models of the standard library functions the analysed headers use.

A model is fn(I, st, f, obj, args, e, fr) -> value | [(state, value)] | None (None: treat as an
unmodelled library function).  Keys of MODELS are qualified names without template arguments.
"""
from dom import *
from dom import _n
from fractions import Fraction

MODELS = {}
FAMILY = {}
SEQ = ("std::vector", "std::basic_string", "std::basic_string_view", "std::array", "std::initializer_list", "std::deque", "std::span", "std::list")
for _c in SEQ:
    FAMILY[_c] = "SEQ"
FAMILY["std::__array_traits"] = "SEQ"

CH_UNIVERSE = frozenset(range(-1, 256))
SPACES = frozenset((32, 9, 10, 11, 12, 13))


def model(*names):
    def deco(fn):
        for n in names:
            MODELS[n] = fn
        return fn
    return deco


def seq(*names):
    def deco(fn):
        for n in names:
            MODELS[("fam", "SEQ", n)] = fn
        return fn
    return deco


# ------------------------------------------------------------------ helpers
def elty(I, ti):
    """numeric type of the first template argument of a record type"""
    t = I.p.ty(I.p.strip_ref(ti))
    ta = t.get("ta")
    if ta and "t" in ta[0]:
        return ta[0]["t"]
    if t.get("k") == "rec" and t.get("q") in ("std::basic_string", "std::basic_string_view"):
        return None
    return None


def retelem(I, f):
    return I.p.strip_ref(f["ret"])


def sizeof(I, st, v):
    if isinstance(v, Str):
        return P.c(len(v.s))
    if isinstance(v, Vec):
        return v.n
    if isinstance(v, Sym) and v.op == "chr":
        return ONE
    if isinstance(v, Sym) and v.op == "cat":
        r = ZERO
        for x in v.args:
            r = r + sizeof(I, st, x)
        return r
    if isinstance(v, Sym) and v.op == "fill":
        return v.args[0]
    if isinstance(v, Sym) and v.op == "map":
        return sizeof(I, st, v.args[1])
    if isinstance(v, Sym) and v.op in ("upd", "sorted"):
        return sizeof(I, st, v.args[0])
    if isinstance(v, Sym) and v.op == "substr":
        n = sizeof(I, st, v.args[0])
        left = n - v.args[1]
        if v.args[2] is None or st.facts.entails(c_le(left, v.args[2], "i")):
            return left
        if st.facts.entails(c_le(v.args[2], left, "i")):
            return v.args[2]
    s = Sym("size", (v,), U64)
    p = P.a(s)
    if s not in st.tags:
        st.tags[s] = 1
        st.facts._add(p, lo=0, hi=(1 << 62))
    return p


def cat(*parts):
    r = []
    for x in parts:
        xs = x.args if isinstance(x, Sym) and x.op == "cat" else (x,)
        for y in xs:
            if isinstance(y, Str) and not y.s:
                continue
            if isinstance(y, Str) and r and isinstance(r[-1], Str):
                r[-1] = Str(r[-1].s + y.s)
            else:
                r.append(y)
    if not r:
        return Str("")
    if len(r) == 1:
        return r[0]
    return Sym("cat", tuple(r))


def chstr(I, st, c):
    """one-character string"""
    if isinstance(c, P):
        k = c.const()
        if k is not None:
            return Str(chr(k & 255))
    return Sym("chr", (c,))


def substr(I, st, v, pos, n):
    if isinstance(v, Str) and pos.const() is not None and (n is None or n.const() is not None):
        p = pos.const()
        return Str(v.s[p:] if n is None or n.const() >= (1 << 62) else v.s[p:p + n.const()])
    if pos.const() == 0 and n is not None and st.facts.entails(c_le(sizeof(I, st, v), n, "i")):
        return v
    if pos.const() == 0 and n is None:
        return v
    if n is not None and n.const() is not None and n.const() >= (1 << 62):
        n = None
    return Sym("substr", (v, pos, n))


def container(I, st, obj):
    """(location or None, value) of a container operand"""
    if isinstance(obj, Loc):
        return obj, I.read(st, obj)
    return None, obj


def cloc(I, st, obj):
    if isinstance(obj, Loc):
        # views share the characters of what they were made from
        return obj
    return I.newroot(st, obj)


def is_ref(I, f):
    return I.isref(f["ret"])


def item(I, st, obj, idx, f):
    l = cloc(I, st, obj)
    v = I.read(st, l)
    if isinstance(v, Iter):   # span-like view (pointer + size)
        return v.loc.sub(("i", v.idx + idx))
    return l.sub(("i", idx))


def default_value(I, t, q):
    if q in ("std::vector", "std::deque", "std::initializer_list", "std::set", "std::map", "std::multiset") or q in ("std::span",):
        return Vec(ZERO, ("fill", ZERO)) if q in SEQ else Sym("empty", (q,))
    if q in ("std::basic_string", "std::basic_string_view", "std::filesystem::path"):
        return Str("")
    if q == "std::optional":
        return Opt(ZERO, UNINIT)
    if q in ("std::unique_ptr", "std::shared_ptr", "std::function"):
        return NULL
    if q == "std::array":
        ta = t.get("ta")
        if ta and len(ta) > 1 and "i" in ta[1]:
            return Vec(P.c(int(ta[1]["i"])), ("fill", UNINIT))
        return None
    if q in ("std::basic_ostringstream", "std::basic_stringstream"):
        return Sym("ostringstream", (0,))
    if q in ("std::pair", "std::tuple", "std::complex"):
        return None
    if q in ("std::monostate",):
        return Sym("monostate")
    if q == "std::variant":
        return Rec("variant", {"idx": ZERO, "val": UNINIT})
    return None


def nt(I, ti):
    return I.nty(ti)


def typed_elem(I, st, v, ti):
    return I.typed(v, ti) if ti is not None else v


def range_vec(I, st, a, b):
    """sequence [a, b) of two iterators as a value"""
    if isinstance(a, Iter) and isinstance(b, Iter) and a.loc == b.loc and not a.rev:
        v = I.read(st, a.loc) if isinstance(a.loc, Loc) else a.loc
        n = b.idx - a.idx
        if a.idx.const() == 0 and isinstance(v, (Vec, Str, Sym)):
            full = sizeof(I, st, v)
            if n == full or st.facts.entails(c_eq(n, full, "i")):
                return v
        if n.const() is not None and 0 <= n.const() <= 64:
            return Vec(n, ("fill", ZERO), tuple((P.c(i), I.elem(st, v, a.idx + P.c(i))) for i in range(n.const())))
        return Sym("slice", (v, a.idx, n))
    if isinstance(a, Str) and isinstance(b, Str) and a.s.endswith(b.s):
        return Str(a.s[:len(a.s) - len(b.s)])
    return Sym("slice", (a, b))


def pval(I, st, a):
    """value behind a char pointer + optional length"""
    if isinstance(a, Str):
        return a
    if isinstance(a, Iter):
        v = I.read(st, a.loc) if isinstance(a.loc, Loc) else a.loc
        if a.idx.const() == 0:
            return v
        return substr(I, st, v, a.idx, None)
    return a


def moved_from(I, st, v, ti):
    """what libstdc++ leaves in an object that was moved from: strings are empty (other members are not read again)"""
    t = I.p.ty(ti)
    if isinstance(v, Opt):
        ts = [I.p.ty(x["t"]) for x in flat_ta(t)]
        return Opt(v.has, Str("")) if ts and ts[0].get("q") == "std::basic_string" else v
    if isinstance(v, (Str, Sym)) and t.get("q") == "std::basic_string":
        return Str("")
    if isinstance(v, Rec) and v.cls in I.p.records:
        r = I.p.records[v.cls]
        if r.get("repo"):
            fs = dict(v.fields)
            for x in r["fields"]:
                if x["n"] in fs:
                    fs[x["n"]] = moved_from(I, st, fs[x["n"]], x["t"])
            return Rec(v.cls, fs)
    return v


def construct_std(I, st, q, f, vs, e, fr):
    n = len(vs)
    ts = I.p.psig(f) if f else ()
    t = I.p.ty(e["t"])
    rd = lambda x: I.rv(st, x)
    if q in ("std::basic_string", "std::basic_string_view"):
        # trailing allocator arguments are irrelevant
        a = [v for v, s in zip(vs, ts) if "allocator" not in s]
        s = [s for s in ts if "allocator" not in s]
        if not a:
            return Str("")
        if s[0].startswith("initializer_list") or "initializer_list" in s[0]:
            return rd(a[0])
        if len(a) == 1:
            v = a[0]
            if isinstance(v, Loc):
                v = I.read(st, v)
            return pval(I, st, v)
        if len(a) == 2 and s[0] in ("unsigned long", "unsigned int", "size_type") and s[1] == "char":
            cnt, c = rd(a[0]), rd(a[1])
            if cnt.const() is not None and c.const() is not None and 0 <= cnt.const() < 4096:
                return Str(chr(c.const() & 255) * cnt.const())
            return Vec(cnt, ("fill", c))
        if len(a) == 2 and s[1] in ("unsigned long", "unsigned int") and "char" in s[0]:
            v, cnt = a[0], rd(a[1])
            if isinstance(v, Loc) and I.p.ty(f["ps"][0]["t"])["k"] == "ptr":
                # pointer to a single object
                if cnt.const() == 1:
                    return chstr(I, st, I.read(st, v))
            if isinstance(v, Iter) and isinstance(v.loc, Loc):
                base = I.read(st, v.loc)
                if v.idx.const() == 0 and cnt == sizeof(I, st, base):
                    return base
                if isinstance(base, P) or (not isinstance(base, (Vec, Str)) and cnt.const() == 1):
                    return chstr(I, st, base)
                return substr(I, st, base, v.idx, cnt)
            if isinstance(v, Str):
                return substr(I, st, v, ZERO, cnt)
            if cnt.const() == 1:
                return chstr(I, st, rd(v))
            return Sym("substr", (pval(I, st, v), ZERO, cnt))
        if len(a) == 2 and isinstance(a[0], (Iter, Str)):
            return range_vec(I, st, a[0], a[1])
        if len(a) == 3:
            return substr(I, st, rd(a[0]), rd(a[1]), rd(a[2]))
    if q in ("std::vector", "std::deque"):
        a = [v for v, s in zip(vs, ts) if "allocator" not in s]
        s = [s for s in ts if "allocator" not in s]
        et = elty(I, e["t"])
        if not a:
            return Vec(ZERO, ("fill", ZERO))
        if "initializer_list" in s[0]:
            return rd(a[0])
        if len(a) == 1 and s[0] in ("unsigned long", "unsigned int"):
            return Vec(rd(a[0]), ("fill", I.zero(et) if et is not None else ZERO))
        if len(a) == 2 and s[0] in ("unsigned long", "unsigned int"):
            return Vec(rd(a[0]), ("fill", rd(a[1])))
        if len(a) == 2:
            if isinstance(a[0], Loc):
                a = [rd(x) for x in a]
            return range_vec(I, st, a[0], a[1])
    if q == "std::optional":
        if not vs:
            return Opt(ZERO, UNINIT)
        if "nullopt" in ts[0]:
            return Opt(ZERO, UNINIT)
        v = rd(vs[-1])
        if isinstance(v, Opt):
            return v
        return Opt(ONE, v)
    if q in ("std::pair",):
        if n == 2:
            return Rec(t.get("r"), {"first": rd(vs[0]), "second": rd(vs[1])})
        if n == 0:
            r = I.p.records.get(t["r"])
            return Rec(t.get("r"), {x["n"]: I.zero(x["t"]) for x in r["fields"]}) if r else None
        if n == 1:
            v = rd(vs[0])
            return v
    if q == "std::tuple":
        ta = flat_ta(t)
        if n == 1 and len(ta) != 1:
            return rd(vs[0])
        if n == len(ta):
            return Rec("tuple", {str(i): (keepref(I, x, ta[i])) if keepref(I, x, ta[i]) is not None else rd(x) for i, x in enumerate(vs)})
        if n == 0:
            return Rec("tuple", {str(i): I.zero(x["t"]) for i, x in enumerate(ta)})
    if q == "std::complex":
        xs = [rd(v) for v in vs] + [ZERO, ZERO]
        return Rec("complex", {"re": xs[0], "im": xs[1]})
    if q == "std::function":
        v = vs[0] if vs else NULL
        if isinstance(v, Loc):
            v = I.read(st, v)
        return v
    if q == "std::filesystem::path":
        return pval(I, st, rd(vs[0])) if vs else Str("")
    if q in ("std::basic_ofstream", "std::basic_ifstream", "std::basic_fstream"):
        kind = q[len("std::basic_"):]
        if not vs:
            return Sym(kind, (Str(""), None, st.fresh()))
        path = pval(I, st, rd(vs[0]))
        mode = rd(vs[1]) if n > 1 else None
        st.ev.append(("open", kind, path, mode))
        if kind == "ifstream":
            return istream_value((kind, path, st.fresh()), ONE)
        return Sym(kind, (path, mode, st.fresh()))
    if q in ("std::basic_ostringstream", "std::basic_stringstream"):
        return Sym("ostringstream", (st.fresh(),))
    if q in ("std::unique_ptr", "std::shared_ptr"):
        if not vs:
            return NULL
        return vs[0] if not (isinstance(vs[0], Loc) and I.isref(f["ps"][0]["t"])) else rd(vs[0])
    if q == "std::variant":
        if not vs:
            return Rec("variant", {"idx": ZERO, "val": UNINIT})
        return variant_of(I, st, t, rd(vs[0]), f["ps"][0]["t"])
    if q in ASSOC:
        if not vs or all("less<" in x or "allocator" in x for x in ts):
            return mkassoc([])
        if n == 2 and isinstance(vs[0], Iter) or "initializer_list" in ts[0]:
            r = rd(vs[0]) if "initializer_list" in ts[0] else range_vec(I, st, rd(vs[0]), rd(vs[1]))
            es = entries(I, st, r)
            if es is not None and (not es or not q.endswith("map")) and all(isinstance(x, (P, Str)) for x in es):
                out = []
                for x in es:
                    if x not in out and all(st.facts.query(I.same(st, x, y)) is False for y in out):
                        out.append(x)
                    elif x not in out:
                        return None
                return mkassoc(out)
    if q == "std::priority_queue" and not vs:
        return mkassoc([])
    if q in ("std::basic_regex",):
        return Sym("regex", tuple(pval(I, st, rd(v)) for v in vs))
    if q in ("std::less", "std::greater", "std::less_equal", "std::greater_equal", "std::equal_to", "std::not_equal_to", "std::bit_or", "std::bit_and", "std::bit_xor", "std::plus", "std::multiplies"):
        return Sym("ctor", (q,))
    if q == "std::fpos":
        return rd(vs[0]) if vs else ZERO
    if q.startswith("std::") and (q.endswith("_error") or q in ("std::invalid_argument", "std::out_of_range")):
        return Sym("exc", (q,) + tuple(pval(I, st, rd(v)) for v in vs))
    if q == "std::bitset":
        return rd(vs[0]) if vs else ZERO
    if q in ("std::allocator", "std::nullopt_t", "std::integral_constant", "std::in_place_t", "std::piecewise_construct_t"):
        return Sym("tag", (q,))
    if q in ("std::reverse_iterator",):
        v = rd(vs[0])
        if isinstance(v, Iter):
            return Iter(v.loc, v.idx - ONE, not v.rev) if not v.rev else v
    if q.startswith("__gnu_cxx::__normal_iterator") and n == 1:
        return rd(vs[0])
    return None


def flat_ta(t):
    ta = t.get("ta") or []
    out = []
    for x in ta:
        if "p" in x and isinstance(x["p"], list):
            out.extend(x["p"])
        else:
            out.append(x)
    return out


def keepref(I, x, ta):
    if "t" in ta and I.isref(ta["t"]) and isinstance(x, Loc):
        from interp import RefV
        return RefV(x)
    return None


def variant_of(I, st, t, v, ti):
    src = I.p.ty(I.p.strip_ref(ti)).get("s", "?").replace("const ", "")
    for i, x in enumerate(flat_ta(t)):
        if "t" in x and I.p.ty(x["t"]).get("s", "?").replace("const ", "") == src:
            return Rec("variant", {"idx": P.c(i), "val": v})
    return Rec("variant", {"idx": P.a(Sym("vidx", (src,), U64)), "val": v})


# ------------------------------------------------------------------ sequences
@seq("size", "length")
def m_size(I, st, f, obj, a, e, fr):
    return sizeof(I, st, I.rv(st, obj))


@seq("empty")
def m_empty(I, st, f, obj, a, e, fr):
    return c_eq(sizeof(I, st, I.rv(st, obj)), ZERO, "i")


@seq("begin", "cbegin", "data", "c_str")
def m_begin(I, st, f, obj, a, e, fr):
    if f["n"] in ("data", "c_str"):
        v = I.rv(st, obj)
        if isinstance(v, Str):
            return v
    l = cloc(I, st, obj)
    if viewclass(f):
        v = I.read(st, l)
        l = I.newroot(st, v, "view")
        st.store[("view", v)] = v if isinstance(v, V) or isinstance(v, Sym) else v
        return Iter(Loc(("view", v)), ZERO)
    return Iter(l, ZERO)


def viewclass(f):
    return "basic_string_view" in f["q"] or "initializer_list" in f["q"]


@seq("end", "cend")
def m_end(I, st, f, obj, a, e, fr):
    l = cloc(I, st, obj)
    v = I.read(st, l)
    if viewclass(f):
        st.store[("view", v)] = v
        l = Loc(("view", v))
    return Iter(l, sizeof(I, st, v))


@seq("rbegin", "crbegin")
def m_rbegin(I, st, f, obj, a, e, fr):
    l = cloc(I, st, obj)
    return Iter(l, sizeof(I, st, I.read(st, l)) - ONE, True)


@seq("rend", "crend")
def m_rend(I, st, f, obj, a, e, fr):
    return Iter(cloc(I, st, obj), P.c(-1), True)


@seq("operator[]", "at")
def m_idx(I, st, f, obj, a, e, fr):
    i = I.rv(st, a[0])
    if not isinstance(i, P):
        return None
    if I.on_index:
        I.on_index(I, st, obj, i, e)
    if is_ref(I, f):
        return item(I, st, obj, i, f)
    return item(I, st, obj, i, f)


@seq("front")
def m_front(I, st, f, obj, a, e, fr):
    return item(I, st, obj, ZERO, f)


@seq("back")
def m_back(I, st, f, obj, a, e, fr):
    l = cloc(I, st, obj)
    return l.sub(("i", sizeof(I, st, I.read(st, l)) - ONE))


@seq("push_back", "emplace_back")
def m_push(I, st, f, obj, a, e, fr):
    v = I.asvec(st, I.rv(st, obj))
    if len(a) == 1:
        x = I.rv(st, a[0])
    elif not a:
        x = ZERO
    else:
        x = Rec("tuple2", {"first": I.rv(st, a[0]), "second": I.rv(st, a[1])}) if len(a) == 2 else Sym("emplaced", tuple(I.rv(st, y) for y in a))
    nv = Vec(v.n + ONE, v.base, v.writes + ((v.n, x),))
    I.write(st, obj, nv)
    if I.on_push:
        I.on_push(I, st, obj, x, e)
    return obj.sub(("i", v.n)) if isinstance(obj, Loc) else VOID


@seq("pop_back")
def m_pop(I, st, f, obj, a, e, fr):
    v = I.asvec(st, I.rv(st, obj))
    n = v.n - ONE
    w = tuple((i, x) for i, x in v.writes if not i == n)
    I.write(st, obj, Vec(n, v.base, w))
    return VOID


@seq("clear")
def m_clear(I, st, f, obj, a, e, fr):
    v = I.rv(st, obj)
    I.write(st, obj, Str("") if "basic_string" in f["q"] else Vec(ZERO, ("fill", ZERO)))
    return VOID


@seq("reserve", "shrink_to_fit")
def m_reserve(I, st, f, obj, a, e, fr):
    return VOID


@seq("resize")
def m_resize(I, st, f, obj, a, e, fr):
    v = I.asvec(st, I.rv(st, obj))
    n = I.rv(st, a[0])
    fill = I.rv(st, a[1]) if len(a) > 1 else ZERO
    if v.n.const() == 0:
        I.write(st, obj, Vec(n, ("fill", fill)))
    elif n.const() is not None and v.n.const() is not None and n.const() <= v.n.const():
        I.write(st, obj, Vec(n, v.base, tuple((i, x) for i, x in v.writes if i.const() is None or i.const() < n.const())))
    elif n.const() is not None and v.n.const() is not None and n.const() - v.n.const() < 300:
        I.write(st, obj, Vec(n, v.base, v.writes + tuple((P.c(i), fill) for i in range(v.n.const(), n.const()))))
    else:
        I.write(st, obj, Vec(n, ("sym", Sym("resized", (v, n, fill)))))
    return VOID


@seq("assign")
def m_assign(I, st, f, obj, a, e, fr):
    xs = [I.rv(st, x) for x in a]
    if len(xs) == 2 and isinstance(xs[0], P):
        I.write(st, obj, Vec(xs[0], ("fill", xs[1])))
        return VOID
    if len(xs) == 2:
        I.write(st, obj, range_vec(I, st, xs[0], xs[1]))
        return VOID
    if len(xs) == 1:
        I.write(st, obj, xs[0])
        return obj


@seq("operator=")
def m_seqassign(I, st, f, obj, a, e, fr):
    v = I.rv(st, a[0])
    if isinstance(v, Iter):
        v = pval(I, st, v)
    if isinstance(v, P) and "basic_string" in f["q"]:
        v = chstr(I, st, v)
    I.write(st, obj, v)
    return obj


@seq("operator+=", "append")
def m_sappend(I, st, f, obj, a, e, fr):
    if len(a) != 1:
        return None
    x = I.rv(st, a[0])
    if isinstance(x, P):
        x = chstr(I, st, x)
    I.write(st, obj, cat(I.rv(st, obj), pval(I, st, x)))
    return obj


@seq("substr")
def m_substr(I, st, f, obj, a, e, fr):
    xs = [I.rv(st, x) for x in a]
    v = I.rv(st, obj)
    return substr(I, st, v, xs[0] if xs else ZERO, xs[1] if len(xs) > 1 else None)


@seq("find")
def m_find(I, st, f, obj, a, e, fr):
    if len(a) > 1 and not (isinstance(I.rv(st, a[1]), P) and I.rv(st, a[1]).const() == 0):
        return None
    v = I.rv(st, obj)
    x = I.rv(st, a[0])
    if isinstance(x, Str) and len(x.s) == 1:
        x = P.c(ord(x.s))
    if isinstance(v, Str) and isinstance(x, P) and x.const() is not None:
        return P.c(v.s.find(chr(x.const())) % (1 << 64))
    if isinstance(v, Str) and isinstance(x, P):
        # membership test on a constant alphabet
        out = []
        for s, t in I.branch(st, P.a(Sym("strin", (v, x), BOOL))):
            r = Sym("strfind", (v, x), U64)
            if t:
                s.facts._add(P.a(r), lo=0, hi=len(v.s) - 1)
                out.append((s, P.a(r)))
            else:
                out.append((s, P.c((1 << 64) - 1)))
        return out
    out = []
    has = P.a(Sym("contains", (v, x), BOOL))
    n = sizeof(I, st, v)
    for s, t in I.branch(st, has):
        if t:
            r = P.a(Sym("find", (v, x), U64))
            s.facts._add(r, lo=0)
            s.facts._add(r - n, hi=-1)
            out.append((s, r))
        else:
            out.append((s, P.c((1 << 64) - 1)))
    return out


@seq("insert", "emplace")
def m_insert(I, st, f, obj, a, e, fr):
    v = I.rv(st, obj)
    xs = [I.rv(st, x) if not isinstance(x, Iter) else x for x in a]
    if len(xs) == 2 and isinstance(xs[0], Iter) and isinstance(obj, Loc):
        n = sizeof(I, st, v)
        if xs[0].loc == obj and (xs[0].idx == n or st.facts.entails(c_eq(xs[0].idx, n, "i"))):
            vv = I.asvec(st, v)
            I.write(st, obj, Vec(vv.n + ONE, vv.base, vv.writes + ((vv.n, xs[1]),)))
            return Iter(obj, n)
        k, at = n.const(), xs[0].idx.const() if isinstance(xs[0].idx, P) else None
        if xs[0].loc == obj and not xs[0].rev and k is not None and at is not None and 0 <= at <= k <= 64:
            els = [I.elem(st, v, P.c(i)) for i in range(k)]
            els.insert(at, xs[1])
            I.write(st, obj, Vec(P.c(k + 1), ("fill", ZERO), tuple((P.c(i), x) for i, x in enumerate(els))))
            return Iter(obj, xs[0].idx)
    if len(xs) == 3 and isinstance(xs[0], Iter) and isinstance(obj, Loc):
        n = sizeof(I, st, v)
        if xs[0].loc == obj and xs[0].idx == n:
            r = range_vec(I, st, xs[1], xs[2])
            if isinstance(r, Vec) and r.n.const() is not None:
                vv = I.asvec(st, v)
                w = vv.writes + tuple((vv.n + P.c(i), I.elem(st, r, P.c(i))) for i in range(r.n.const()))
                I.write(st, obj, Vec(vv.n + r.n, vv.base, w))
            else:
                I.write(st, obj, cat(v, r))
            return Iter(obj, n)
    return None


@seq("operator basic_string_view")
def m_tosv(I, st, f, obj, a, e, fr):
    return I.rv(st, obj)


@seq("remove_prefix")
def m_rmprefix(I, st, f, obj, a, e, fr):
    v = I.rv(st, obj)
    I.write(st, obj, substr(I, st, v, I.rv(st, a[0]), None))
    return VOID


@seq("fill")
def m_arrfill(I, st, f, obj, a, e, fr):
    v = I.asvec(st, I.rv(st, obj))
    I.write(st, obj, Vec(v.n, ("fill", I.rv(st, a[0]))))
    return VOID


@model("std::basic_string::compare", "std::basic_string_view::compare")
def m_compare(I, st, f, obj, a, e, fr):
    return None


@model("std::operator+")
def m_strplus(I, st, f, obj, a, e, fr):
    xs = []
    for x in a:
        v = I.rv(st, x) if not isinstance(x, Iter) else pval(I, st, x)
        if isinstance(v, P):
            v = chstr(I, st, v)
        if isinstance(v, Iter):
            v = pval(I, st, v)
        xs.append(v)
    if "complex" in I.p.ts(f["ret"]):
        return None
    return cat(*xs)


@model("std::to_string")
def m_tostr(I, st, f, obj, a, e, fr):
    v = I.rv(st, a[0])
    if v.const() is not None and isinstance(v.const(), int):
        return Str(str(v.const()))
    return Sym("decimal", (v,))


# ------------------------------------------------------------------ iterators
def iterop(I, st, f, obj, a, e, fr):
    n = f["n"]
    xs = ([obj] if obj is not None else []) + list(a)
    v = I.rv(st, xs[0])
    if not isinstance(v, (Iter, Str)) and not (isinstance(v, Sym) and v.op in ("padd",)):
        if not isinstance(v, Sym):
            return None
    if n == "operator*":
        return I.ptrloc(st, v) if isinstance(v, (Iter, Str)) else None
    if n == "operator->":
        return I.ptrloc(st, v) if isinstance(v, (Iter, Str)) else None
    if n in ("operator++", "operator--"):
        if not isinstance(v, Iter):
            return None
        k = 1 if n == "operator++" else -1
        nv = I.step(st, v, k, None)
        I.write(st, xs[0], nv)
        return v if len(xs) == 2 else xs[0]
    if n in ("operator+", "operator-"):
        o = I.rv(st, xs[1])
        if n == "operator-":
            if isinstance(o, (Iter, Str)):
                return I.pdiff(st, v, o)
            return I.padd(st, v, -o) if isinstance(o, P) else None
        if isinstance(v, P):
            v, o = o, v
        return I.padd(st, v, o) if isinstance(o, P) else None
    if n in ("operator+=", "operator-="):
        o = I.rv(st, xs[1])
        nv = I.padd(st, v, o if n == "operator+=" else -o)
        I.write(st, xs[0], nv)
        return xs[0]
    if n == "operator[]":
        o = I.rv(st, xs[1])
        if isinstance(v, Iter):
            if I.on_index:
                I.on_index(I, st, v.loc, v.idx + o, e)
            return I.ptrloc(st, I.padd(st, v, o))
        return None
    if n in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>="):
        return I.compare(st, n[8:], v, I.rv(st, xs[1]), False)
    if n == "base":
        return v
    return None


for _n2 in ("*", "->", "++", "--", "+", "-", "+=", "-=", "[]", "==", "!=", "<", ">", "<=", ">="):
    MODELS["__gnu_cxx::__normal_iterator::operator" + _n2] = iterop
    MODELS["__gnu_cxx::operator" + _n2] = iterop
    MODELS["std::_Deque_iterator::operator" + _n2] = iterop
    MODELS["std::reverse_iterator::operator" + _n2] = iterop
MODELS["__gnu_cxx::__normal_iterator::base"] = iterop


@model("std::operator==", "std::operator!=", "std::operator<", "std::operator>", "std::operator<=", "std::operator>=")
def m_cmpop(I, st, f, obj, a, e, fr):
    op = f["n"][8:]
    x, y = [I.rv(st, v) for v in a]
    if isinstance(x, Iter) and isinstance(y, Iter):
        return I.compare(st, op, x, y, False)
    x, y = [pval(I, st, v) if isinstance(v, Iter) else v for v in (x, y)]
    if isinstance(x, Opt) or isinstance(y, Opt):
        return opt_eq(I, st, op, x, y)
    if isinstance(x, Str) and isinstance(y, Str):
        r = {"==": x.s == y.s, "!=": x.s != y.s, "<": x.s < y.s, ">": x.s > y.s, "<=": x.s <= y.s, ">=": x.s >= y.s}[op]
        return P.c(r)
    return I.compare(st, op, x, y, False)


def opt_eq(I, st, op, x, y):
    if isinstance(x, Opt) and isinstance(y, Opt):
        both = c_and(c_and(x.has, y.has), I.same(st, x.val, y.val)) if x.val is not UNINIT and y.val is not UNINIT else ZERO
        r = c_or(both, c_and(c_not(x.has), c_not(y.has)))
    else:
        o, v = (x, y) if isinstance(x, Opt) else (y, x)
        if isinstance(v, Sym) and v.op in ("tag",):
            r = c_not(o.has)
        elif o.val is UNINIT:
            r = c_and(o.has, ZERO)
        else:
            r = c_and(o.has, I.same(st, o.val, v))
    return r if op == "==" else c_not(r)


@model("std::next", "std::prev")
def m_next(I, st, f, obj, a, e, fr):
    v = I.rv(st, a[0])
    k = I.rv(st, a[1]) if len(a) > 1 else ONE
    if isinstance(v, Iter):
        return I.padd(st, v, k if f["n"] == "next" else -k)


@model("std::advance")
def m_advance(I, st, f, obj, a, e, fr):
    v = I.rv(st, a[0])
    if isinstance(v, Iter):
        I.write(st, a[0], I.padd(st, v, I.rv(st, a[1])))
        return VOID


@model("std::distance")
def m_distance(I, st, f, obj, a, e, fr):
    x, y = I.rv(st, a[0]), I.rv(st, a[1])
    if isinstance(x, Iter) and isinstance(y, Iter):
        return I.pdiff(st, y, x)


@model("std::begin", "std::cbegin", "std::end", "std::cend", "std::size", "std::empty", "std::data", "std::rbegin", "std::rend", "std::ssize", "std::ranges::begin", "std::ranges::end", "std::ranges::size")
def m_free_range(I, st, f, obj, a, e, fr):
    n = f["n"]
    o = a[0]
    if isinstance(o, Iter):   # array decayed
        o = o.loc
    v = I.rv(st, o)
    if isinstance(v, Sym) and v.op in ("empty",):
        return None
    if n in ("size", "ssize"):
        return arrsize(I, st, o, v, f)
    if n == "empty":
        return c_eq(arrsize(I, st, o, v, f), ZERO, "i")
    pt = I.p.ty(I.p.strip_ref(f["ps"][0]["t"]))
    isview = pt.get("q") in ("std::basic_string_view", "std::initializer_list")
    if isview:
        st.store[("view", v)] = v
        l = Loc(("view", v))
    else:
        l = o if isinstance(o, Loc) else I.newroot(st, o)
    if n in ("begin", "cbegin", "data"):
        return Iter(l, ZERO)
    if n in ("end", "cend"):
        return Iter(l, arrsize(I, st, o, v, f))
    if n == "rbegin":
        return Iter(l, arrsize(I, st, o, v, f) - ONE, True)
    return Iter(l, P.c(-1), True)


def arrsize(I, st, o, v, f):
    t = I.p.ty(I.p.strip_ref(f["ps"][0]["t"]))
    if t["k"] == "arr":
        return P.c(t["n"])
    return sizeof(I, st, v)


# ------------------------------------------------------------------ identity / moves
@model("std::forward", "std::move", "std::as_const", "std::ref", "std::cref", "std::launder", "std::move_if_noexcept")
def m_ident(I, st, f, obj, a, e, fr):
    if f["n"] == "move" and len(a) != 1:
        return None
    return a[0]


@model("std::addressof", "std::__addressof")
def m_addr(I, st, f, obj, a, e, fr):
    v = a[0]
    if isinstance(v, Loc) and v.path and isinstance(v.path[-1], tuple):
        return Iter(Loc(v.root, v.path[:-1]), v.path[-1][1])
    return v


@model("std::min", "std::max")
def m_minmax(I, st, f, obj, a, e, fr):
    mx = f["n"] == "max"
    fl = I.p.ty(I.p.strip_ref(f["ret"]))["k"] == "float"
    if len(a) == 1:
        v = I.rv(st, a[0])
        if isinstance(v, Vec) and v.n.const():
            xs = [I.elem(st, v, P.c(i)) for i in range(v.n.const())]
            outs = [(st, xs[0])]
            for x in xs[1:]:
                nxt = []
                for s, b in outs:
                    nxt.extend(pick(I, s, b, x, b, x, mx, fl))
                outs = nxt
            return outs
        return None
    if len(a) != 2:
        return None
    x, y = I.typed(I.rv(st, a[0]), f["ret"]), I.typed(I.rv(st, a[1]), f["ret"])
    if not isinstance(x, P) or not isinstance(y, P):
        return None
    return pick(I, st, x, y, a[0], a[1], mx, fl)


@model("std::minmax")
def m_minmax2(I, st, f, obj, a, e, fr):
    if len(a) != 2:
        return None
    x, y = I.rv(st, a[0]), I.rv(st, a[1])
    if not isinstance(x, P) or not isinstance(y, P):
        return None
    t = I.p.ty(I.p.strip_ref(I.p.funcs[f["id"]]["ps"][0]["t"] if f.get("id") in I.p.funcs and "ps" in I.p.funcs[f["id"]] else f["ret"]))
    fl = t["k"] == "float"
    out = []
    for s, less in I.branch(st, I.compare(st, "<", y, x, fl)):
        p, q = (a[1], a[0]) if less else (a[0], a[1])
        out.append((s, Rec(None, {"first": p, "second": q})))
    return out


def pick(I, st, x, y, rx, ry, mx, fl):
    """fork on the comparison the standard prescribes; equal operands give the first"""
    if x == y:
        return [(st, rx)]
    c = I.compare(st, "<", x, y, fl) if mx else I.compare(st, "<", y, x, fl)
    return [(s, ry if t else rx) for s, t in I.branch(st, c)]


@model("std::clamp")
def m_clamp(I, st, f, obj, a, e, fr):
    fl = I.p.ty(I.p.strip_ref(f["ret"]))["k"] == "float"
    x, lo, hi = [I.rv(st, v) for v in a]
    out = []
    for s, t in I.branch(st, I.compare(st, "<", x, lo, fl)):
        if t:
            out.append((s, a[1]))
        else:
            for s2, t2 in I.branch(s, I.compare(s, "<", hi, x, fl)):
                out.append((s2, a[2] if t2 else a[0]))
    return out


@model("std::swap", "std::iter_swap")
def m_swap(I, st, f, obj, a, e, fr):
    x, y = a
    if f["n"] == "iter_swap":
        x, y = I.ptrloc(st, I.rv(st, x)), I.ptrloc(st, I.rv(st, y))
    vx, vy = I.rv(st, x), I.rv(st, y)
    t = I.p.strip_ref(f["ps"][0]["t"])
    vx, vy = I.typed(vx, t), I.typed(vy, t)
    I.write(st, x, vy)
    I.write(st, y, vx)
    if I.on_swap:
        I.on_swap(I, st, x, y, e)
    return VOID


@model("std::exchange")
def m_exchange(I, st, f, obj, a, e, fr):
    old = I.rv(st, a[0])
    I.write(st, a[0], I.rv(st, a[1]))
    return I.typed(old, f["ret"])


@model("std::get")
def m_get(I, st, f, obj, a, e, fr):
    ta = f.get("ta") or []
    o = a[0]
    l = o if isinstance(o, Loc) else I.newroot(st, o)
    v = I.read(st, l)
    if isinstance(v, Rec) and v.cls == "variant":
        idx = None
        t = I.p.ty(I.p.strip_ref(f["ps"][0]["t"]))
        if ta and "i" in ta[0]:
            idx = int(ta[0]["i"])
        elif ta and "t" in ta[0]:
            want = I.p.ts(ta[0]["t"])
            for i, x in enumerate(flat_ta(t)):
                if "t" in x and I.p.ts(x["t"]) == want:
                    idx = i
                    break
        out = []
        for s, ok in I.branch(st, c_eq(v.get("idx"), P.c(idx), "i")):
            if ok:
                out.append((s, l.sub("val")))
            else:
                s.ab = ("throw", "std::bad_variant_access", None, e.get("ln"))
                out.append((s, None))
        return out
    if not ta:
        return None
    if "i" in ta[0]:
        i = int(ta[0]["i"])
        if isinstance(v, Rec):
            ks = v.fields.keys()
            if "first" in ks:
                return refres(I, st, l.sub(("first", "second")[i]))
            if str(i) in ks:
                return refres(I, st, l.sub(str(i)))
        t = I.p.ty(I.p.strip_ref(f["ps"][0]["t"]))
        if t.get("q") == "std::array":
            return l.sub(("i", P.c(i)))
        if t.get("q") == "std::pair":
            return l.sub(("first", "second")[i])
        return l.sub(str(i))
    if "t" in ta[0]:
        return None
    return None


def refres(I, st, l):
    from interp import RefV
    cur = I.rawroot(st, l.root)
    for x in l.path:
        cur = I.select(st, cur, x)
    return cur.loc if isinstance(cur, RefV) else l


@model("std::make_pair")
def m_mkpair(I, st, f, obj, a, e, fr):
    return Rec(None, {"first": I.rv(st, a[0]), "second": I.rv(st, a[1])})


@model("std::make_tuple")
def m_mktuple(I, st, f, obj, a, e, fr):
    return Rec("tuple", {str(i): I.rv(st, x) for i, x in enumerate(a)})


@model("std::tie", "std::forward_as_tuple")
def m_tie(I, st, f, obj, a, e, fr):
    from interp import RefV
    return Rec("tuple", {str(i): RefV(x) if isinstance(x, Loc) else x for i, x in enumerate(a)})


def rec_assign(I, st, f, obj, a, e, fr):
    v = I.rv(st, a[0])
    cur = I.rv(st, obj)
    from interp import RefV
    if isinstance(cur, Rec) and isinstance(v, Rec):
        for i, k in enumerate(sorted(cur.fields)):
            x = cur.fields[k]
            ks = sorted(v.fields)
            y = v.fields[ks[i]]
            if isinstance(x, RefV):
                I.write(st, x.loc, y.loc if isinstance(y, RefV) else y)
        if not any(isinstance(x, RefV) for x in cur.fields.values()):
            I.write(st, obj, v)
        return obj
    I.write(st, obj, v)
    return obj


for _q in ("std::pair::operator=", "std::tuple::operator="):
    MODELS[_q] = rec_assign


def plain_assign(I, st, f, obj, a, e, fr):
    v = a[0]
    if isinstance(v, Loc) and I.isref(f["ps"][0]["t"]):
        v = I.rv(st, v)
    I.write(st, obj, v)
    return obj


for _q in ("std::unique_ptr", "std::map", "std::set", "std::function", "std::shared_ptr", "std::filesystem::path", "std::complex",
           "std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "std::basic_ofstream", "std::basic_regex"):
    MODELS[_q + "::operator="] = plain_assign


@model("std::optional::operator=")
def m_optassign(I, st, f, obj, a, e, fr):
    v = I.rv(st, a[0])
    if isinstance(v, Opt):
        I.write(st, obj, v)
    elif isinstance(v, Sym) and v.op == "tag":
        I.write(st, obj, Opt(ZERO, UNINIT))
    else:
        I.write(st, obj, Opt(ONE, v))
    return obj


@model("std::variant::operator=")
def m_varassign(I, st, f, obj, a, e, fr):
    v = I.rv(st, a[0])
    if isinstance(v, Rec) and v.cls == "variant":
        I.write(st, obj, v)
    else:
        t = None
        rec = I.p.records.get(f["cls"])
        for x in I.p.types:
            if x.get("k") == "rec" and x.get("r") == f["cls"]:
                t = x
                break
        I.write(st, obj, variant_of(I, st, t, v, f["ps"][0]["t"]))
    return obj


@model("std::variant::index")
def m_varindex(I, st, f, obj, a, e, fr):
    v = I.rv(st, obj)
    if isinstance(v, Rec) and v.cls == "variant":
        return v.get("idx")


@model("std::optional::has_value", "std::optional::operator bool")
def m_opthas(I, st, f, obj, a, e, fr):
    v = I.rv(st, obj)
    if isinstance(v, Opt):
        return v.has
    return P.a(Sym("has", (v,), BOOL))


@model("std::optional::value", "std::optional::operator*", "std::optional::operator->")
def m_optval(I, st, f, obj, a, e, fr):
    l = obj if isinstance(obj, Loc) else I.newroot(st, obj)
    v = I.read(st, l)
    has = v.has if isinstance(v, Opt) else P.a(Sym("has", (v,), BOOL))
    if f["n"] != "value":
        return l.sub("$val")
    out = []
    for s, t in I.branch(st, has):
        if t:
            out.append((s, l.sub("$val")))
        else:
            s.ab = ("throw", "std::bad_optional_access", None, e.get("ln"))
            out.append((s, None))
    return out


@model("std::optional::value_or")
def m_optvalor(I, st, f, obj, a, e, fr):
    v = I.rv(st, obj)
    has = v.has if isinstance(v, Opt) else P.a(Sym("has", (v,), BOOL))
    out = []
    for s, t in I.branch(st, has):
        if t:
            out.append((s, v.val if isinstance(v, Opt) else Sym("fld", (v, "$val"))))
        else:
            out.append((s, I.rv(s, a[0])))
    return out


@model("std::optional::emplace")
def m_optemplace(I, st, f, obj, a, e, fr):
    if len(a) == 1:
        I.write(st, obj, Opt(ONE, I.rv(st, a[0])))
        return obj.sub("$val")


@model("std::make_optional")
def m_mkopt(I, st, f, obj, a, e, fr):
    return Opt(ONE, I.rv(st, a[0]))


@model("std::optional::reset")
def m_optreset(I, st, f, obj, a, e, fr):
    I.write(st, obj, Opt(ZERO, UNINIT))
    return VOID


# ------------------------------------------------------------------ smart pointers
@model("std::make_unique", "std::make_shared")
def m_mkunique(I, st, f, obj, a, e, fr):
    rt = I.p.ty(f["ret"])
    tt = flat_ta(rt)[0]["t"]
    t = I.p.ty(tt)
    if t["k"] == "rec" and t.get("q", "").startswith("std::basic_"):
        v = construct_std(I, st, t["q"], None, [I.rv(st, x) for x in a], {"t": tt}, fr) if False else stream_ctor(I, st, t["q"], a)
        return I.newroot(st, v, "heap")
    if t["k"] == "rec":
        # find a repository constructor
        rec = I.p.records.get(t["r"])
        for m in (rec or {}).get("methods", []):
            mf = I.p.funcs.get(m)
            if mf and mf.get("ctor") and len(mf["ps"]) == len(a) and mf.get("body") is not None and mf.get("repo"):
                loc = I.newroot(st, UNINIT, "heap")
                return [(s, None if s.ab else loc) for s in I.run_ctor(st, mf, loc, list(a), fr, {"ln": 0})]
        if not a:
            return I.newroot(st, Rec(t["r"], default_fields(I, t["r"])), "heap")
    if not a:
        return I.newroot(st, I.zero(tt), "heap")
    return I.newroot(st, I.rv(st, a[0]) if len(a) == 1 else Sym("made", tuple(I.rv(st, x) for x in a)), "heap")


def default_fields(I, rid):
    return I.uninit_fields(rid)


def stream_ctor(I, st, q, a):
    kind = q[len("std::basic_"):]
    if not a:
        return Sym(kind, (Str(""), None, st.fresh()))
    path = pval(I, st, I.rv(st, a[0]))
    mode = I.rv(st, a[1]) if len(a) > 1 else None
    st.ev.append(("open", kind, path, mode))
    if kind == "ifstream":
        return istream_value((kind, path, st.fresh()), ONE)
    return Sym(kind, (path, mode, st.fresh()))


@model("std::unique_ptr::get", "std::shared_ptr::get", "std::unique_ptr::operator->", "std::shared_ptr::operator->", "std::unique_ptr::operator*", "std::shared_ptr::operator*", "std::__uniq_ptr_impl::_M_ptr")
def m_uptr(I, st, f, obj, a, e, fr):
    v = rawval(I, st, obj)
    if f["n"] == "operator*":
        return I.ptrloc(st, v)
    return v


def rawval(I, st, obj):
    """value stored at obj without following pointers"""
    if isinstance(obj, Loc):
        return I.read(st, obj)
    return obj


@model("std::unique_ptr::operator bool")
def m_uptrbool(I, st, f, obj, a, e, fr):
    return I.tobool(st, rawval(I, st, obj))


@model("std::unique_ptr::reset")
def m_uptrreset(I, st, f, obj, a, e, fr):
    I.write(st, obj, a[0] if a else NULL)
    return VOID


@model("std::function::operator()")
def m_fncall(I, st, f, obj, a, e, fr):
    v = rawval(I, st, obj)
    return I.invoke(st, v, a, e, fr)


@model("std::function::operator bool")
def m_fnbool(I, st, f, obj, a, e, fr):
    return I.tobool(st, rawval(I, st, obj))


@model("std::invoke")
def m_invoke(I, st, f, obj, a, e, fr):
    return I.invoke(st, a[0], a[1:], e, fr)


@model("std::not_fn")
def m_notfn(I, st, f, obj, a, e, fr):
    return Sym("std::not_fn", (I.rv(st, a[0]),))


@model("std::integral_constant::operator bool", "std::integral_constant::operator value_type")
def m_ic(I, st, f, obj, a, e, fr):
    rec = I.p.records.get(f["cls"])
    return P.c(1 if "true" in (rec or {}).get("q", f["q"]) else 0)


# ------------------------------------------------------------------ algorithms
@model("std::sort", "std::stable_sort")
def m_sort(I, st, f, obj, a, e, fr):
    x, y = I.rv(st, a[0]), I.rv(st, a[1])
    comp = I.rv(st, a[2]) if len(a) > 2 else Sym("ctor", ("std::less",))
    if isinstance(x, Iter) and isinstance(y, Iter) and x.loc == y.loc:
        v = I.read(st, x.loc)
        n = sizeof(I, st, v)
        lo, hi = x.idx.const(), y.idx.const()
        if lo is None or hi is None:
            d = y.idx - x.idx
        if lo is not None and hi is not None and hi - lo <= I.sort_limit:
            return sort_small(I, st, x, y, comp, e, fr)
        full = x.idx.const() == 0 and (y.idx == n or st.facts.entails(c_eq(y.idx, n, "i")))
        nv = Vec(n, ("sym", Sym("sorted", (v, comp) if full else (v, comp, x.idx, y.idx))))
        I.write(st, x.loc, nv)
        return VOID


def sort_small(I, st, x, y, comp, e, fr):
    """insertion sort that branches on the comparator: every order of the elements, exactly"""
    lo, hi = x.idx.const(), y.idx.const()
    work = [(st, [])]
    for i in range(lo, hi):
        nxt = []
        for s, done in work:
            v = I.elem(s, I.read(s, x.loc), P.c(i))
            pend = [(s, len(done))]
            while pend:
                s1, j = pend.pop()
                if j == 0:
                    nxt.append((s1, [v] + done))
                    continue
                args = [I.newroot(s1, v, "cmp"), I.newroot(s1, done[j - 1], "cmp")]
                for s2, r in I.invoke(s1, comp, args, {"t": -1, "ln": e.get("ln")}, fr):
                    if s2.ab:
                        nxt.append((s2, None))
                        continue
                    for s3, b in I.branch(s2, I.tobool(s2, I.rv(s2, r))):
                        if b:
                            pend.append((s3, j - 1))
                        else:
                            nxt.append((s3, done[:j] + [v] + done[j:]))
        work = nxt
    out = []
    for s, xs in work:
        if xs is not None:
            for i, v in enumerate(xs):
                I.write(s, x.loc.sub(("i", P.c(lo + i))), v)
        out.append((s, None if s.ab else VOID))
    return out


@model("std::reverse")
def m_reverse(I, st, f, obj, a, e, fr):
    x, y = I.rv(st, a[0]), I.rv(st, a[1])
    if isinstance(x, Iter) and isinstance(y, Iter):
        v = I.read(st, x.loc)
        I.write(st, x.loc, Vec(sizeof(I, st, v), ("sym", Sym("reversed", (v, x.idx, y.idx)))))
        return VOID


@model("std::rotate")
def m_rotate(I, st, f, obj, a, e, fr):
    x, m, y = [I.rv(st, v) for v in a]
    if isinstance(x, Iter) and isinstance(y, Iter) and isinstance(m, Iter):
        v = I.read(st, x.loc)
        st.ev.append(("rotate", x.loc, x.idx, m.idx, y.idx))
        I.write(st, x.loc, Vec(sizeof(I, st, v), ("sym", Sym("rotated", (v, x.idx, m.idx, y.idx)))))
        return Iter(x.loc, x.idx + (y.idx - m.idx))


@model("std::for_each")
def m_foreach(I, st, f, obj, a, e, fr):
    x, y = I.rv(st, a[0]), I.rv(st, a[1])
    if isinstance(x, Iter) and isinstance(y, Iter):
        return algloop(I, st, x, y, lambda s, l: I.invoke(s, a[2], [l], e, fr), lambda s: I.rv(s, a[2]))


def algloop(I, st, x, y, step, fin):
    outs = []
    work = [(st, x, 0)]
    while work:
        s, it, n = work.pop()
        for s2, t in I.branch(s, c_not(I.same(s, it, y))):
            if not t:
                outs.append((s2, fin(s2)))
                continue
            if n >= I.unroll and s2 is not s:
                s2.ab = ("cut", "alg")
                outs.append((s2, None))
                continue
            if n > 300:
                s2.ab = ("cut", "alg")
                outs.append((s2, None))
                continue
            for s3, _ in step(s2, I.ptrloc(s2, it)):
                if s3.ab:
                    outs.append((s3, None))
                else:
                    work.append((s3, I.step(s3, it, 1, None), n + 1))
    return outs


@model("std::all_of", "std::any_of", "std::none_of")
def m_allof(I, st, f, obj, a, e, fr):
    x, y = I.rv(st, a[0]), I.rv(st, a[1])
    if not (isinstance(x, Iter) and isinstance(y, Iter)):
        return None
    outs = []
    work = [(st, x, 0)]
    stop = {"all_of": False, "any_of": True, "none_of": True}[f["n"]]
    res_stop = ZERO if f["n"] in ("all_of", "none_of") else ONE
    while work:
        s, it, n = work.pop()
        for s2, t in I.branch(s, c_not(I.same(s, it, y))):
            if not t:
                outs.append((s2, c_not(res_stop)))
                continue
            if n > max(I.unroll, 1) and n > 300 or (n >= I.unroll and not (y.idx - it.idx).const()):
                s2.ab = ("cut", "alg")
                outs.append((s2, None))
                continue
            for s3, r in I.invoke(s2, a[2], [I.ptrloc(s2, it)], e, fr):
                if s3.ab:
                    outs.append((s3, None))
                    continue
                for s4, b in I.branch(s3, I.tobool(s3, I.rv(s3, r))):
                    if b == stop:
                        outs.append((s4, res_stop))
                    else:
                        work.append((s4, I.step(s4, it, 1, None), n + 1))
    return outs


@model("std::transform")
def m_transform(I, st, f, obj, a, e, fr):
    if len(a) != 4:
        return None
    x, y = I.rv(st, a[0]), I.rv(st, a[1])
    out = I.rv(st, a[2])
    if not (isinstance(x, Iter) and isinstance(y, Iter)):
        return None
    cur = {"o": out}
    root = I.newroot(st, out, "alg")

    def step(s, l):
        r = []
        for s2, v in I.invoke(s, a[3], [l], e, fr):
            if s2.ab:
                r.append((s2, None))
                continue
            v = I.rv(s2, v)
            o = I.read(s2, root)
            if isinstance(o, Iter):
                I.write(s2, I.ptrloc(s2, o), v)
                s2.store[root.root] = I.step(s2, o, 1, None)
            elif isinstance(o, Sym) and o.op == "back_inserter":
                vv = I.asvec(s2, I.read(s2, o.args[0]))
                I.write(s2, o.args[0], Vec(vv.n + ONE, vv.base, vv.writes + ((vv.n, v),)))
            r.append((s2, None))
        return r
    return algloop(I, st, x, y, step, lambda s: I.read(s, root))


@model("std::back_inserter")
def m_backins(I, st, f, obj, a, e, fr):
    return Sym("back_inserter", (a[0],))


@model("std::accumulate")
def m_accumulate(I, st, f, obj, a, e, fr):
    x, y = I.rv(st, a[0]), I.rv(st, a[1])
    if len(a) == 3 and isinstance(x, Iter) and isinstance(y, Iter):
        n = (y.idx - x.idx).const()
        if n is not None and 0 <= n < 64:
            v = I.read(st, x.loc)
            r = I.rv(st, a[2])
            for i in range(n):
                r = r + I.typed(I.elem(st, v, x.idx + P.c(i)), f["ret"])
            return r


@model("std::copy")
def m_copy(I, st, f, obj, a, e, fr):
    x, y, o = [I.rv(st, v) for v in a]
    if isinstance(x, Iter) and isinstance(y, Iter) and isinstance(o, Iter):
        n = (y.idx - x.idx).const()
        if n is not None and 0 <= n < 300:
            v = I.read(st, x.loc)
            for i in range(n):
                I.write(st, I.ptrloc(st, I.padd(st, o, P.c(i))), I.elem(st, v, x.idx + P.c(i)))
            return I.padd(st, o, P.c(n))


@model("std::fill", "std::fill_n")
def m_fill(I, st, f, obj, a, e, fr):
    x = I.rv(st, a[0])
    y = I.rv(st, a[1])
    if isinstance(x, Iter):
        if isinstance(y, P):
            y = I.padd(st, x, y)
        v = I.asvec(st, I.read(st, x.loc))
        val = I.rv(st, a[2])
        n = (y.idx - x.idx).const()
        if x.idx.const() == 0 and (y.idx == v.n or st.facts.entails(c_eq(y.idx, v.n, "i"))):
            I.write(st, x.loc, Vec(v.n, ("fill", val)))
            return VOID
        if n is not None and 0 <= n < 300:
            for i in range(n):
                I.write(st, x.loc.sub(("i", x.idx + P.c(i))), val)
            return VOID


@model("std::iota")
def m_iota(I, st, f, obj, a, e, fr):
    x, y = I.rv(st, a[0]), I.rv(st, a[1])
    v0 = I.rv(st, a[2])
    if isinstance(x, Iter) and isinstance(y, Iter):
        n = (y.idx - x.idx).const()
        if n is not None and 0 <= n < 300:
            for i in range(n):
                I.write(st, x.loc.sub(("i", x.idx + P.c(i))), v0 + P.c(i))
            return VOID


# ------------------------------------------------------------------ numeric
def num(I, st, v):
    return I.rv(st, v)


@model("std::abs", "abs", "std::fabs", "labs", "llabs", "fabs", "fabsl", "std::__detail::__abs")
def m_abs(I, st, f, obj, a, e, fr):
    v = num(I, st, a[0])
    if not isinstance(v, P):
        return None
    if v.const() is not None:
        return P.c(abs(v.const()))
    fl = I.p.ty(f["ret"])["k"] == "float"
    lo, hi = st.facts.bounds(v)
    if lo >= 0:
        return v
    if hi <= 0:
        return -v
    frm, s, c0 = v.form()
    # canonical sign: |v| = |-v|
    w = v if s > 0 else -v
    r = Sym("abs", (w,), F80 if fl else I.nty(f["ret"]))
    st.facts._add(P.a(r), lo=0)
    st.facts._add(P.a(r) - w, lo=0)
    st.facts._add(P.a(r) + w, lo=0)
    return P.a(r)


def _isx(name):
    def m(I, st, f, obj, a, e, fr):
        v = num(I, st, a[0])
        if isinstance(v, P) and v.const() is not None:
            return P.c(name == "isfinite")
        if name == "isnan":
            if isinstance(v, P) and v.atoms() <= st.facts.nn:
                return ZERO
        return P.a(Sym(name, (v,), BOOL))
    return m


for _q in ("isfinite", "isnan", "isinf", "signbit"):
    MODELS["std::" + _q] = _isx(_q)
    MODELS[_q] = _isx(_q)


def _half(x):
    n = (abs(x) * 2 + 1) // 2
    return n if x >= 0 else -n


ROUND = {"floor": lambda x: x.__floor__(), "ceil": lambda x: x.__ceil__(), "trunc": lambda x: x.__trunc__(), "round": _half, "llround": _half, "lround": _half}


def _pure(name):
    def m(I, st, f, obj, a, e, fr):
        xs = tuple(num(I, st, x) for x in a)
        if name in ROUND and len(xs) == 1 and isinstance(xs[0], P):
            if xs[0].const() is not None and isinstance(xs[0].const(), (int, Fraction)):
                return P.c(ROUND[name](xs[0].const()))
            if all(x.ty is not None and x.ty.k == "i" and x.ty.w <= 32 for x in xs[0].atoms()) and all(isinstance(k, int) for k in xs[0].t.values()):
                return xs[0]        # an integer already
        r = I.typed(Sym(name, xs), f["ret"])
        if isinstance(r, P) and r.const() is None and xs and isinstance(xs[0], P):
            realfacts(st.facts, name, r, xs)
        return r
    return m


def realfacts(F, name, r, xs):
    """sign and rounding facts of the real functions"""
    x = xs[0]
    neg = lambda p: F.query(c_le(p, ZERO, "f")) is True
    if name in ("log", "log2", "log10") and neg(x - ONE):
        F._add(r, hi=0)
    elif name == "log1p" and neg(x):
        F._add(r, hi=0)
        if F.query(c_lt(x, ZERO, "f")) is True:
            F._add(r, hi=0, his=True)
    elif name in ("exp", "exp2"):
        F._add(r, lo=0)
        if neg(x):
            F._add(r, hi=1)
    elif name == "floor":
        F._add(x - r, lo=0, hi=1, his=True)
        if F.query(c_le(ZERO, x, "f")) is True:
            F._add(r, lo=0)
    elif name == "ceil":
        F._add(r - x, lo=0, hi=1, his=True)
        if F.query(c_le(ZERO, x, "f")) is True:
            F._add(r, lo=0)
    elif name in ("llround", "lround", "round", "llrint"):
        s = x.atom()
        if s is not None and s.op in ("floor", "ceil", "trunc", "round"):
            F._add(r - x, lo=0, hi=0)
        else:
            F._add((r - x).scale(2), lo=-1, hi=1)
        for c, k in ((c_le(ZERO, x, "f"), dict(lo=0)), (c_le(x, ZERO, "f"), dict(hi=0))):
            if F.query(c) is True:
                F._add(r, **k)
    elif name in ("sqrt", "sqrtl"):
        F._add(r, lo=0)
    elif name == "ldexp" and F.query(c_le(ZERO, x, "f")) is True:
        F._add(r, lo=0)
    elif name in ("sin", "cos"):
        F._add(r, lo=-1, hi=1)


for _q in ("sqrt", "log", "log2", "log10", "log1p", "exp", "exp2", "sin", "cos", "tan", "atan2", "atan", "floor", "ceil", "round", "llround", "lround", "lgamma", "pow", "ldexp", "fmod", "hypot", "trunc", "llrint", "sqrtl", "popcount", "countr_zero", "countl_zero", "bit_width"):
    MODELS["std::" + _q] = _pure(_q)
    MODELS[_q] = _pure(_q)


@model("std::gcd", "std::lcm")
def m_gcd(I, st, f, obj, a, e, fr):
    xs = [num(I, st, x) for x in a]
    return I.typed(Sym(f["n"], tuple(sorted(xs, key=repr))), f["ret"])


@model("std::bitset::count")
def m_popc(I, st, f, obj, a, e, fr):
    v = I.rv(st, obj)
    k = v.const() if isinstance(v, P) else None
    if k is not None and k >= 0:
        w = int("".join(x for x in f["q"].split("bitset<")[-1].split(">")[0] if x.isdigit()) or 64) if "bitset<" in f["q"] else 64
        return P.c(bin(k % (1 << w)).count("1"))
    if isinstance(v, P) and "bitset<" in f["q"] and "bitset<64>" not in f["q"]:
        return None
    r = Sym("popcount", (v,), U64)
    st.facts._add(P.a(r), lo=0, hi=64)
    return P.a(r)


# ------------------------------------------------------------------ characters
def _chr(name):
    def m(I, st, f, obj, a, e, fr):
        v = num(I, st, a[0])
        if not isinstance(v, P):
            return None
        if v.const() is not None:
            return P.c(PRED[name](v.const()))
        return P.a(Sym(name, (v,), I32))
    return m


for _q in PRED:
    MODELS[_q] = _chr(_q)
    MODELS["std::" + _q] = _chr(_q)


@model("std::char_traits::eof")
def m_eof(I, st, f, obj, a, e, fr):
    return P.c(-1)


@model("std::char_traits::to_int_type")
def m_toint(I, st, f, obj, a, e, fr):
    v = num(I, st, a[0])
    return I.castint(st, v, NumTy("i", 8, False)) if isinstance(v, P) else None


@model("std::char_traits::to_char_type")
def m_tochar(I, st, f, obj, a, e, fr):
    v = num(I, st, a[0])
    return I.castint(st, v, CHAR) if isinstance(v, P) else None


@model("std::char_traits::eq_int_type", "std::char_traits::eq")
def m_eqint(I, st, f, obj, a, e, fr):
    return c_eq(num(I, st, a[0]), num(I, st, a[1]), "i")


@model("std::char_traits::not_eof")
def m_noteof(I, st, f, obj, a, e, fr):
    v = num(I, st, a[0])
    return [(s, ZERO if t else v) for s, t in I.branch(st, c_eq(v, P.c(-1), "i"))]


# ------------------------------------------------------------------ input streams
def istream_value(ident, skip, opened=None):
    """abstract input stream: symbolic position and skipws flag"""
    return Rec("istream", {"id": Sym("stream", tuple(ident)), "pos": Sym("pos", (Sym("stream", tuple(ident)),)), "skip": skip})


def stream_at(I, st, obj):
    v = I.read(st, obj) if isinstance(obj, Loc) else obj
    if isinstance(v, Rec) and v.cls == "istream":
        return v
    if isinstance(v, Sym):
        r = istream_value((v,), P.a(Sym("skipws", (v,), BOOL)))
        if isinstance(obj, Loc):
            I.write(st, obj, r)
        return r
    return None


def peekat(st, pos):
    s = Sym("ch", (pos,), I32)
    if s not in st.facts.sets:
        u = CH_UNIVERSE
        if pos.op == "ws":
            u = u - SPACES
        if pos.op == "next" and Sym("ch", (pos.args[0],), I32) in st.facts.sets and st.facts.sets[Sym("ch", (pos.args[0],), I32)] == frozenset((-1,)):
            u = frozenset((-1,))
        st.facts.sets[s] = u
    return P.a(s)


@model("std::basic_istream::peek")
def m_peek(I, st, f, obj, a, e, fr):
    v = stream_at(I, st, obj)
    if v is None:
        return None
    return peekat(st, v.get("pos"))


@model("std::basic_istream::get")
def m_get_ch(I, st, f, obj, a, e, fr):
    v = stream_at(I, st, obj)
    if v is None:
        return None
    pos = v.get("pos")
    c = peekat(st, pos)
    I.write(st, obj, v.set("pos", Sym("next", (pos,))))
    st.ev.append(("get", v.get("id"), pos))
    if a:
        out = []
        for s, t in I.branch(st, c_eq(c, P.c(-1), "i")):
            if not t:
                I.write(s, a[0], I.castint(s, c, CHAR))
            out.append((s, obj))
        return out
    return c


@model("std::basic_istream::unget", "std::basic_istream::putback", "std::basic_istream::ignore", "std::basic_istream::read", "std::basic_istream::getline", "std::getline")
def m_isother(I, st, f, obj, a, e, fr):
    o = obj if obj is not None else a[0]
    v = stream_at(I, st, o)
    if v is None:
        return None
    st.ev.append((f["n"], v.get("id"), v.get("pos")))
    I.write(st, o, v.set("pos", Sym("after_" + f["n"], (v.get("pos"), st.fresh()))))
    return o


@model("std::basic_istream::operator>>", "std::operator>>", "std::ws")
def m_extract(I, st, f, obj, a, e, fr):
    xs = ([obj] if obj is not None else []) + list(a)
    if f["n"] == "ws":
        fn = "ws"
        tgt = None
        o = xs[0]
    else:
        if len(xs) != 2:
            return None
        o, tgt = xs
        fn = None
        tv = tgt if isinstance(tgt, Fn) else (I.rv(st, tgt) if isinstance(tgt, Loc) else tgt)
        if isinstance(tv, Fn):
            fn = I.p.funcs[tv.f]["n"]
    v = stream_at(I, st, o)
    if v is None:
        return None
    pos = v.get("pos")
    if fn == "ws":
        if pos.op not in ("ws", "skipped"):
            st.ev.append(("ws", v.get("id"), pos))
            I.write(st, o, v.set("pos", Sym("ws", (pos,))))
        return o
    if fn in ("skipws", "noskipws"):
        I.write(st, o, v.set("skip", P.c(fn == "skipws")))
        return o
    if fn is not None:
        st.ev.append(("imanip", fn))
        return o
    out = []
    for s, sk in I.branch(st, v.get("skip")):
        p = Sym("ws", (pos,)) if sk and pos.op != "ws" else pos
        tt = I.p.ty(I.p.strip_ref(f["ps"][-1]["t"]))
        if tt["k"] == "rec" and tt.get("q") == "std::basic_string":
            c = peekat(s, p)
            # an extraction yields the empty string iff no non-space character is there
            tok = Sym("tok", (p,))
            n = sizeof(I, s, tok)
            for s2, emp in I.branch(s, c_or(c_eq(c, P.c(-1), "i"), P.a(Sym("isspace", (c,), I32)))):
                if emp:
                    val = Str("")
                else:
                    s2.facts._add(n, lo=1)
                    val = tok
                I.write(s2, tgt, val)
                I.write(s2, o, v.set("pos", Sym("after", (p,))))
                s2.ev.append(("token", v.get("id"), p))
                out.append((s2, o))
        else:
            nm = "num" if tt["k"] in ("int", "float", "bool", "enum") else "ext"
            val = I.typed(Sym(nm, (p, tt.get("s", "?"))), f["ps"][-1]["t"] if tt["k"] != "rec" else -1)
            if tt["k"] in ("int", "float") and isinstance(val, Sym):
                val = P.a(Sym(nm, (p, tt.get("s", "?")), NumTy("i" if tt["k"] == "int" else "f", tt["w"], bool(tt.get("sg", 1)))))
            if getattr(I, "next_number", None) is not None:
                val = I.next_number      # constant chosen by the check
            I.write(s, tgt, val)
            I.write(s, o, v.set("pos", Sym("after" + nm, (p,))))
            s.ev.append(("token", v.get("id"), p))
            out.append((s, o))
    return out


@model("std::basic_istream::tellg")
def m_tellg(I, st, f, obj, a, e, fr):
    v = stream_at(I, st, obj)
    return P.a(Sym("tell", (v.get("pos") if v else st.fresh(),), I64))


@model("std::basic_istream::seekg", "std::basic_ios::clear", "std::basic_ios::setstate")
def m_seekg(I, st, f, obj, a, e, fr):
    v = stream_at(I, st, obj)
    if f["n"] == "seekg" and v is not None:
        st.ev.append(("seek", v.get("id")))
        I.write(st, obj, v.set("pos", Sym("seek", (tuple(I.rv(st, x) for x in a),))))
    if f["n"] == "setstate":
        st.ev.append(("setstate",))
    return obj if f["n"] == "seekg" else VOID


@model("std::fpos::operator long", "std::fpos::operator long long", "std::fpos::operator streamoff")
def m_fposlong(I, st, f, obj, a, e, fr):
    v = I.rv(st, obj)
    return I.typed(v, f["ret"]) if isinstance(v, Sym) else v


@model("std::basic_ios::good", "std::basic_ios::operator bool", "std::basic_ios::fail", "std::basic_ios::eof", "std::basic_ios::operator!", "std::basic_ios::bad", "std::basic_ofstream::is_open", "std::basic_ifstream::is_open")
def m_good(I, st, f, obj, a, e, fr):
    v = I.rv(st, obj)
    if isinstance(v, Rec) and v.cls == "istream":
        key = (v.get("id"), v.get("pos"))
    else:
        key = (v,)
    ok = P.a(Sym("good" if f["n"] != "eof" else "eofbit", key, BOOL))
    if f["n"] in ("fail", "operator!", "bad"):
        return c_not(ok)
    return ok


# ------------------------------------------------------------------ output streams
def sink_of(I, st, o):
    v = I.read(st, o) if isinstance(o, Loc) else o
    if isinstance(v, Rec):
        k = v.get("$sink")
        if isinstance(k, Sym) and k.op == "rdbuf" and isinstance(k.args[0], Loc):
            return I.read(st, k.args[0])       # writes into the buffer of another stream
        if k is not None:
            return k
        return Sym("stream", (str(v.cls),) if not isinstance(v.cls, int) else (I.p.records[v.cls]["q"],))
    return v


def emit(st, sink, val):
    if isinstance(val, Str) and st.ev and st.ev[-1][0] == "out" and st.ev[-1][1] == sink and isinstance(st.ev[-1][2], Str):
        st.ev[-1] = ("out", sink, Str(st.ev[-1][2].s + val.s))
    elif isinstance(val, Str) and not val.s:
        pass
    else:
        st.ev.append(("out", sink, val))


MANIP = {"boolalpha", "noboolalpha", "fixed", "scientific", "hex", "dec", "oct", "showpos", "noshowpos", "hexfloat", "defaultfloat", "skipws", "noskipws", "uppercase", "nouppercase", "left", "right", "internal", "showbase", "noshowbase", "showpoint", "noshowpoint", "unitbuf", "nounitbuf"}


# formatting state of a stream: base, width, fill, showbase, showpos, uppercase, adjustment
FMT0 = (10, 0, " ", False, False, False, "right")


def fmt_of(st, sink):
    return st.tags.get(("$fmt", sink), FMT0)


def fmt_set(st, sink, name, arg=None):
    """effect of a manipulator on the formatting of integers"""
    b, w, fl, sb, sp, up, adj = old = fmt_of(st, sink)
    if name in ("hex", "dec", "oct"):
        b = {"hex": 16, "dec": 10, "oct": 8}[name]
    elif name == "setw":
        w = arg.const() if isinstance(arg, P) else None
    elif name == "setfill":
        fl = chr(arg.const() & 255) if isinstance(arg, P) and arg.const() is not None else None
    elif name in ("showbase", "noshowbase"):
        sb = name == "showbase"
    elif name in ("showpos", "noshowpos"):
        sp = name == "showpos"
    elif name in ("uppercase", "nouppercase"):
        up = name == "uppercase"
    elif name in ("left", "right", "internal"):
        adj = name
    elif name == "flags":
        b, sb, sp, up, adj = arg
    new = (b, w, fl, sb, sp, up, adj)
    if new != old:
        st.tags[("$fmt", sink)] = new


def fmt_take(st, sink):
    """the state for the next formatted output, which resets the width"""
    r = fmt_of(st, sink)
    if r[1] != 0:
        st.tags[("$fmt", sink)] = (r[0], 0) + r[2:]
    return r


def padded(s, fm):
    w, fl, adj = fm[1], fm[2], fm[6]
    if w is None or fl is None:
        return None
    return s.ljust(w, fl) if adj == "left" else s.rjust(w, fl) if adj == "right" or not s[:1] in "+-" else s[:1] + s[1:].rjust(w - 1, fl)


def fmtint(v, ty, fm):
    """text of an integer under a formatting state that is not the default"""
    b, w, fl, sb, sp, up, adj = fm
    c = v.const()
    if c is None or w is None or fl is None or sb or sp or up:
        return Sym("fmtint", (v,) + fm)
    if b != 10 and c < 0:
        c &= (1 << (ty.get("w") or 32)) - 1
    return Str(padded({16: "%x", 8: "%o", 10: "%d"}[b] % c, fm))


@model("std::ios_base::flags")
def m_flags(I, st, f, obj, a, e, fr):
    sink = sink_of(I, st, obj)
    fm = fmt_of(st, sink)
    old = P.a(Sym("fmtflags", (fm[0],) + fm[3:], I32))
    if a:
        x = I.rv(st, a[0])
        x = x.atom() if isinstance(x, P) else x
        if isinstance(x, Sym) and x.op == "fmtflags":
            fmt_set(st, sink, "flags", x.args)
        else:
            fmt_set(st, sink, "flags", (None, None, None, None, None))
        st.ev.append(("manip", sink, "flags", x))
    return old


@model("std::operator<<", "std::basic_ostream::operator<<", "std::filesystem::operator<<")
def m_insertion(I, st, f, obj, a, e, fr):
    xs = ([obj] if obj is not None else []) + list(a)
    if len(xs) != 2:
        return None
    o, x = xs
    ov = I.read(st, o) if isinstance(o, Loc) else o
    if isinstance(ov, P):
        return None
    sink = sink_of(I, st, o)
    pt = I.p.ty(I.p.strip_ref(f["ps"][-1]["t"]))
    v = x if isinstance(x, (Fn, Iter, Str)) else (I.rv(st, x) if pt["k"] != "ptr" or not isinstance(x, Loc) else x)
    if isinstance(v, Fn):
        g = I.p.funcs[v.f]
        if g["n"] == "endl":
            emit(st, sink, Str("\n"))
            st.ev.append(("flush", sink))
        elif g["n"] in ("flush",):
            st.ev.append(("flush", sink))
        elif g["n"] == "ends":
            emit(st, sink, Str("\0"))
        elif g.get("repo"):
            return [(s, o) for s, _ in I.call(st, g, None, [o], {"t": g["ret"], "ln": e.get("ln")}, fr)]
        else:
            fmt_set(st, sink, g["n"])
            st.ev.append(("manip", sink, g["n"]))
        return o
    if isinstance(v, Sym) and v.op in ("setprecision", "setw", "setfill"):
        fmt_set(st, sink, v.op, v.args[0])
        st.ev.append(("manip", sink, v.op, v.args[0]))
        return o
    fm = fmt_take(st, sink)
    if pt["k"] == "ptr" and I.p.ty(pt["p"]).get("k") == "func" and not isinstance(v, Fn):
        st.ev.append(("manip", sink, v))
        return o
    if isinstance(v, Iter):
        v = pval(I, st, v)
    if isinstance(v, P):
        if pt.get("ch"):
            v = chstr(I, st, v)
        elif pt["k"] == "bool":
            v = Sym("boolout", (v,))
        elif pt["k"] == "float":
            v = Sym("floatout", (v,))
        elif fm[:6] != FMT0[:6] and not (fm[0] == 10 and fm[1] in (0, None) and not any(fm[3:6])):
            v = fmtint(v, pt, fm)
        elif v.const() is not None:
            v = Str(str(v.const()))
        else:
            v = Sym("intout", (v,))
    elif isinstance(v, Vec) and v.n.const() is not None and v.base[0] == "fill" and not v.writes and isinstance(v.base[1], P) and v.base[1].const() is not None:
        v = Str(chr(v.base[1].const() & 255) * v.n.const())
    if isinstance(v, Sym) and v.op == "cat":
        for y in v.args:
            emit(st, sink, y)
    else:
        emit(st, sink, v)
    return o


@model("std::basic_ostream::put")
def m_put(I, st, f, obj, a, e, fr):
    emit(st, sink_of(I, st, obj), chstr(I, st, I.rv(st, a[0])))
    return obj


@model("std::basic_ostream::write")
def m_write(I, st, f, obj, a, e, fr):
    emit(st, sink_of(I, st, obj), Sym("bytes", (pval(I, st, I.rv(st, a[0])) if not isinstance(a[0], Loc) else I.read(st, a[0]), I.rv(st, a[1]))))
    return obj


@model("std::basic_ostream::flush")
def m_flush(I, st, f, obj, a, e, fr):
    st.ev.append(("flush", sink_of(I, st, obj)))
    return obj


@model("std::endl")
def m_endl(I, st, f, obj, a, e, fr):
    sink = sink_of(I, st, a[0])
    emit(st, sink, Str("\n"))
    st.ev.append(("flush", sink))
    return a[0]


@model("std::setprecision", "std::setw", "std::setfill")
def m_setprec(I, st, f, obj, a, e, fr):
    return Sym(f["n"], (I.rv(st, a[0]),))


@model("std::basic_ostringstream::rdbuf", "std::basic_stringstream::rdbuf")
def m_rdbuf(I, st, f, obj, a, e, fr):
    return Sym("rdbuf", (obj,)) if isinstance(obj, Loc) and not a else None


@model("std::basic_ios::init", "std::basic_ios::rdbuf", "std::basic_ios::set_rdbuf", "std::basic_ostream::set_rdbuf")
def m_iosinit(I, st, f, obj, a, e, fr):
    b = I.rv(st, a[0]) if a else None
    v = I.read(st, obj) if isinstance(obj, Loc) else None
    if not (isinstance(b, Sym) and b.op == "rdbuf") or not isinstance(v, Rec):
        return None
    I.write(st, obj, v.set("$sink", b))
    return VOID if f["n"] != "rdbuf" else NULL


@model("std::basic_ostringstream::operator=", "std::basic_stringstream::operator=")
def m_ossassign(I, st, f, obj, a, e, fr):
    I.write(st, obj, I.rv(st, a[0]))
    if isinstance(a[0], Loc):
        I.write(st, a[0], Sym("ostringstream", (st.fresh(),)))
    return obj


@model("std::basic_ostream::operator=", "std::basic_ios::operator=", "std::basic_ostream::swap")
def m_osassign(I, st, f, obj, a, e, fr):
    return obj      # the buffers stay with their streams


@model("std::basic_ostringstream::str", "std::basic_stringstream::str")
def m_strof(I, st, f, obj, a, e, fr):
    v = I.rv(st, obj)
    if a:
        return None
    # text written to this buffer so far on this path
    parts = [x[2] for x in st.ev if x[0] == "out" and x[1] == v]
    if isinstance(v, Sym) and v.op == "ostringstream":
        return cat(*parts) if parts else Str("")
    return Sym("text", (v,))


@model("std::basic_ofstream::close", "std::basic_ifstream::close")
def m_close(I, st, f, obj, a, e, fr):
    st.ev.append(("close", I.rv(st, obj)))
    return VOID


@model("std::basic_ofstream::open", "std::basic_ifstream::open")
def m_open(I, st, f, obj, a, e, fr):
    kind = "ofstream" if "ofstream" in f["q"] else "ifstream"
    I.write(st, obj, stream_ctor(I, st, "std::basic_" + kind, a))
    return VOID


# ------------------------------------------------------------------ files, process, misc
@model("std::filesystem::operator/", "std::filesystem::path::operator/=")
def m_pathdiv(I, st, f, obj, a, e, fr):
    xs = ([obj] if obj is not None else []) + list(a)
    r = Sym("path/", tuple(pval(I, st, I.rv(st, x)) for x in xs))
    if f["n"] == "operator/=":
        I.write(st, obj, r)
        return obj
    return r


@model("std::filesystem::path::string", "std::filesystem::path::c_str", "std::filesystem::path::native")
def m_pathstr(I, st, f, obj, a, e, fr):
    return I.rv(st, obj)


@model("std::filesystem::exists")
def m_exists(I, st, f, obj, a, e, fr):
    return P.a(Sym("exists", (pval(I, st, I.rv(st, a[0])),), BOOL))


@model("std::filesystem::remove", "std::filesystem::remove_all", "std::remove")
def m_remove(I, st, f, obj, a, e, fr):
    if len(a) > 1 and f["n"] == "remove" and "filesystem" not in f["q"]:
        return None
    st.ev.append(("remove", pval(I, st, I.rv(st, a[0]))))
    return P.a(Sym("removed", (st.fresh(),), BOOL))


@model("std::filesystem::rename", "std::rename")
def m_rename(I, st, f, obj, a, e, fr):
    st.ev.append(("rename", pval(I, st, I.rv(st, a[0])), pval(I, st, I.rv(st, a[1]))))
    return VOID


@model("std::exit", "exit", "_exit", "_Exit", "std::_Exit", "quick_exit", "std::quick_exit")
def m_exit(I, st, f, obj, a, e, fr):
    st.ab = ("exit", I.rv(st, a[0]), e.get("ln"))
    return [(st, None)]


@model("std::abort", "abort", "std::terminate")
def m_abort(I, st, f, obj, a, e, fr):
    st.ab = ("exit", P.c(134), e.get("ln"))
    return [(st, None)]


@model("std::regex_match")
def m_regex(I, st, f, obj, a, e, fr):
    xs = [I.rv(st, x) if not isinstance(x, Iter) else x for x in a]
    if len(xs) >= 3 and isinstance(xs[0], Iter):
        xs = [range_vec(I, st, xs[0], xs[1])] + xs[2:]
    xs = [pval(I, st, x) for x in xs[:2]]
    return P.a(Sym("regex_match", tuple(xs), BOOL))


@model("std::regex_search")
def m_regexs(I, st, f, obj, a, e, fr):
    return P.a(Sym("regex_search", tuple(pval(I, st, I.rv(st, x)) for x in a[:2]), BOOL))


@model("std::from_chars")
def m_fromchars(I, st, f, obj, a, e, fr):
    x, y = I.rv(st, a[0]), I.rv(st, a[1])
    kind = I.p.ts(I.p.strip_ref(f["ps"][2]["t"]))
    if isinstance(x, Iter) and isinstance(y, Iter) and x.loc == y.loc and not x.rev:
        # identify the parsed range by the sequence's value, not by where it is stored
        key = (pval(I, st, I.read(st, x.loc)), x.idx, y.idx, kind)
    else:
        key = (x, y, kind)
    key += tuple(I.rv(st, z) for z in a[3:])
    nt_ = I.nty(I.p.strip_ref(f["ps"][2]["t"]))
    ec = Sym("fc_ec", key, I32)
    ptr = Iter(x.loc, P.a(Sym("fc_end", key, I64))) if isinstance(x, Iter) else Sym("fc_ptr", key)
    out = []
    for s, ok in I.branch(st, c_eq(P.a(ec), ZERO, "i")):
        if ok:
            I.write(s, a[2], P.a(Sym("fc_val", key, nt_)))
        out.append((s, Rec(None, {"ptr": ptr, "ec": P.a(ec)})))
    return out


@model("std::stold", "std::stod", "std::stof", "std::stoll", "std::stol", "std::stoi", "std::stoull", "std::stoul", "strtold", "strtod", "strtoll")
def m_stold(I, st, f, obj, a, e, fr):
    v = pval(I, st, I.rv(st, a[0]))
    out = []
    for s, ok in I.branch(st, P.a(Sym(f["n"] + "_ok", (v,), BOOL))):
        if ok:
            if len(a) > 1 and not (a[1] is NULL):
                n = P.a(Sym(f["n"] + "_pos", (v,), U64))
                s.facts._add(n, lo=0)
                I.write(s, I.ptrloc(s, a[1]), n)
            out.append((s, I.typed(Sym(f["n"], (v,)), f["ret"])))
        else:
            s.ab = ("throw", "std::invalid_argument", None, e.get("ln"))
            out.append((s, None))
    return out


@model("std::uncaught_exceptions")
def m_uncaught(I, st, f, obj, a, e, fr):
    return P.a(Sym("uncaught", (), I32))


@model("std::regex_constants::operator|", "std::operator|")
def m_flagor(I, st, f, obj, a, e, fr):
    x, y = I.rv(st, a[0]), I.rv(st, a[1])
    if isinstance(x, P) and isinstance(y, P):
        return I.arith(st, "|", x, y, I32)


@model("std::regex_constants::operator|=", "std::operator|=")
def m_flagoreq(I, st, f, obj, a, e, fr):
    x, y = I.rv(st, a[0]), I.rv(st, a[1])
    if isinstance(x, P) and isinstance(y, P):
        I.write(st, a[0], I.arith(st, "|", x, y, I32))
        return a[0]


@model("std::complex::real", "std::complex::imag", "std::real", "std::imag")
def m_creal(I, st, f, obj, a, e, fr):
    if obj is None:
        obj, a = a[0], a[1:]
    v = I.rv(st, obj)
    k = "re" if f["n"] == "real" else "im"
    if a:
        I.write(st, obj.sub(k), I.rv(st, a[0]))
        return VOID
    if isinstance(v, Rec):
        return v.get(k)
    return I.typed(Sym("fld", (v, k)), f["ret"])


@model("std::vector::operator bool", "std::_Bit_reference::operator bool")
def m_bitref(I, st, f, obj, a, e, fr):
    v = I.rv(st, obj)
    if isinstance(v, Loc):
        v = I.read(st, v)
    if isinstance(v, P):
        return v
    return I.typed(v, f["ret"])


@model("std::_Bit_reference::operator=")
def m_bitassign(I, st, f, obj, a, e, fr):
    tgt = I.rv(st, obj)
    src = I.rv(st, a[0])
    if isinstance(src, Loc):
        src = I.read(st, src)
    I.write(st, tgt if isinstance(tgt, Loc) else obj, I.typed(src, f["ps"][0]["t"]))
    return obj


# ------------------------------------------------------------------ maps and sets
# std::map: Vec of {first, second} records, std::set: Vec of keys; insertion order.  A map that is
# iterated is put into key order first: every order the unknown keys may have is followed.
ASSOC = ("std::map", "std::set", "std::unordered_map", "std::unordered_set")
for _c in ASSOC:
    FAMILY[_c] = "ASSOC"


def assoc(*names):
    def deco(fn):
        for n in names:
            MODELS[("fam", "ASSOC", n)] = fn
        return fn
    return deco


def ismap(f):
    return "map<" in f["q"].split("::" + f["n"])[0] or stripta_cls(f).endswith("map")


def stripta_cls(f):
    from front import stripta, norm
    return stripta(norm(f["q"])).rpartition("::")[0]


def entries(I, st, v):
    """entries of an associative container whose number is known, else None"""
    if isinstance(v, Sym) and v.op == "empty":
        return []
    if isinstance(v, Vec) and v.n.const() is not None and v.base[0] == "fill" and 0 <= v.n.const() <= 64:
        return [I.elem(st, v, P.c(i)) for i in range(v.n.const())]
    return None


def mkassoc(es):
    return Vec(P.c(len(es)), ("fill", ZERO), tuple((P.c(i), x) for i, x in enumerate(es)))


def keyof(I, st, x, mp):
    if mp and isinstance(x, Rec):
        x = x.get("first")
    return x


def lookup(I, st, es, k, mp):
    """[(state, index or None)]"""
    out = []
    cur = [st]
    for i, x in enumerate(es):
        nxt = []
        for s in cur:
            for s2, t in I.branch(s, I.same(s, keyof(I, s, x, mp), k)):
                if t:
                    out.append((s2, i))
                else:
                    nxt.append(s2)
        cur = nxt
    return out + [(s, None) for s in cur]


def akey(I, st, x):
    v = I.rv(st, x) if not isinstance(x, Iter) else x
    return pval(I, st, v)


@assoc("find", "count", "contains")
def m_afind(I, st, f, obj, a, e, fr):
    es = entries(I, st, I.rv(st, obj))
    if es is None:
        return None
    mp = ismap(f)
    out = []
    for s, i in lookup(I, st, es, akey(I, st, a[0]), mp):
        if f["n"] == "find":
            out.append((s, Iter(cloc(I, s, obj), P.c(len(es) if i is None else i))))
        else:
            out.append((s, P.c(i is not None)))
    return out


@assoc("emplace", "try_emplace", "insert", "insert_or_assign", "emplace_hint")
def m_ains(I, st, f, obj, a, e, fr):
    es = entries(I, st, I.rv(st, obj))
    mp = ismap(f)
    if es is None or not isinstance(obj, Loc):
        return None
    if f["n"] == "insert" and len(a) == 2:
        return None
    if mp:
        if len(a) == 1:
            r = I.rv(st, a[0])
            if not isinstance(r, Rec):
                return None
            k, v = r.get("first"), r.get("second")
        else:
            k = akey(I, st, a[0])
            v = I.rv(st, a[1]) if len(a) > 1 else None
            if v is None:
                return None
            if len(a) > 2:
                v = Sym("emplaced", tuple(I.rv(st, x) for x in a[1:]))
        rec = Rec("pair", {"first": k, "second": v})
    else:
        k = akey(I, st, a[0])
        rec = k
    out = []
    for s, i in lookup(I, st, es, k, mp):
        if i is None:
            I.write(s, obj, mkassoc(es + [rec]))
            out.append((s, Rec("pair", {"first": Iter(obj, P.c(len(es))), "second": ONE})))
        else:
            if f["n"] == "insert_or_assign":
                I.write(s, obj, mkassoc(es[:i] + [rec] + es[i + 1:]))
            out.append((s, Rec("pair", {"first": Iter(obj, P.c(i)), "second": ZERO})))
    return out


@assoc("operator[]", "at")
def m_aidx(I, st, f, obj, a, e, fr):
    es = entries(I, st, I.rv(st, obj))
    if es is None or not isinstance(obj, Loc):
        return None
    k = akey(I, st, a[0])
    out = []
    for s, i in lookup(I, st, es, k, True):
        if i is None:
            if f["n"] == "at":
                s.ab = ("throw", "std::out_of_range", None)
                out.append((s, None))
                continue
            z = I.zero(I.p.strip_ref(f["ret"]))
            I.write(s, obj, mkassoc(es + [Rec("pair", {"first": k, "second": z})]))
            i = len(es)
        out.append((s, obj.sub(("i", P.c(i))).sub("second")))
    return out


@assoc("erase")
def m_aerase(I, st, f, obj, a, e, fr):
    es = entries(I, st, I.rv(st, obj))
    if es is None or not isinstance(obj, Loc):
        return None
    x = I.rv(st, a[0])
    if isinstance(x, Iter):
        i = x.idx.const()
        if i is None:
            return None
        I.write(st, obj, mkassoc(es[:i] + es[i + 1:]))
        return Iter(obj, P.c(i))
    out = []
    for s, i in lookup(I, st, es, akey(I, st, a[0]), ismap(f)):
        if i is not None:
            I.write(s, obj, mkassoc(es[:i] + es[i + 1:]))
        out.append((s, P.c(i is not None)))
    return out


@assoc("begin", "cbegin")
def m_abegin(I, st, f, obj, a, e, fr):
    from itertools import permutations
    l = cloc(I, st, obj)
    es = entries(I, st, I.rv(st, obj))
    if es is None:
        return None
    if len(es) < 2:
        return Iter(l, ZERO)
    mp = ismap(f)
    ks = [keyof(I, st, x, mp) for x in es]
    if all(isinstance(k, Str) for k in ks):
        I.write(st, l, mkassoc([x for _, x in sorted(zip([k.s for k in ks], es), key=lambda z: z[0])]))
        return Iter(l, ZERO)
    if all(isinstance(k, P) and k.const() is not None for k in ks):
        I.write(st, l, mkassoc([x for _, x in sorted(zip([k.const() for k in ks], es), key=lambda z: z[0])]))
        return Iter(l, ZERO)
    if all(isinstance(k, P) and (k - ks[0]).const() is not None for k in ks):
        def before(x, y):
            t = st.facts.query(c_lt(x, y, "i"))
            return -1 if t else 1 if t is False else None
        rank = [[before(x, y) for y in ks] for x in ks]
        if all(r is not None for x in rank for r in x):
            o = sorted(range(len(ks)), key=lambda i: sum(1 for j in range(len(ks)) if j != i and rank[j][i] == -1))
            I.write(st, l, mkassoc([es[i] for i in o]))
            return Iter(l, ZERO)
    if len(es) > 4:
        return None
    out = []
    for perm in permutations(range(len(es))):
        s = st.fork()
        I.write(s, l, mkassoc([es[i] for i in perm]))
        s.tags["order", l.root] = tuple(ks[i] for i in perm)
        out.append((s, Iter(l, ZERO)))
    return out


@assoc("end", "cend")
def m_aend(I, st, f, obj, a, e, fr):
    l = cloc(I, st, obj)
    es = entries(I, st, I.rv(st, obj))
    return None if es is None else Iter(l, P.c(len(es)))


@assoc("size")
def m_asize(I, st, f, obj, a, e, fr):
    es = entries(I, st, I.rv(st, obj))
    return None if es is None else P.c(len(es))


@assoc("empty")
def m_aempty(I, st, f, obj, a, e, fr):
    es = entries(I, st, I.rv(st, obj))
    return None if es is None else P.c(not es)


@assoc("clear")
def m_aclear(I, st, f, obj, a, e, fr):
    I.write(st, obj, mkassoc([]))
    return VOID


for _n2 in ("*", "->", "++", "--", "==", "!="):
    for _c in ("std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "std::_Node_iterator", "std::_Node_const_iterator", "std::_List_iterator", "std::_List_const_iterator", "std::_Deque_iterator"):
        MODELS[_c + "::operator" + _n2] = iterop


@model("std::ios_base::setf", "std::ios_base::unsetf", "std::ios_base::precision", "std::ios_base::width")
def m_setf(I, st, f, obj, a, e, fr):
    """formatting state set through member functions: the same events as the manipulators"""
    n = f["n"]
    sink = sink_of(I, st, obj)
    if n in ("precision", "width"):
        if a:
            if n == "width":
                fmt_set(st, sink, "setw", I.rv(st, a[0]))
            st.ev.append(("manip", sink, "setprecision" if n == "precision" else "setw", I.rv(st, a[0])))
        return P.a(Sym("old" + n, (st.fresh(),), I64))
    v = I.rv(st, a[0])
    bits = v.const() if isinstance(v, P) else None
    if bits is None:
        st.ev.append(("manip", sink, n, v))
    else:
        names = {1: "boolalpha", 2: "dec", 4: "fixed", 8: "hex", 16: "internal", 32: "left", 64: "oct", 128: "right", 256: "scientific", 512: "showbase", 1024: "showpoint", 2048: "showpos", 4096: "skipws", 8192: "unitbuf", 16384: "uppercase"}
        for b, nm in names.items():
            if bits & b:
                if n == "unsetf":
                    nm = "defaultfloat" if nm in ("fixed", "scientific") else "no" + nm
                fmt_set(st, sink, nm)
                st.ev.append(("manip", sink, nm))
    return P.a(Sym("oldflags", (st.fresh(),), I32))


import algos  # noqa: E402  (registers further models)
import ranges  # noqa: E402
