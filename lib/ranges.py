"""Ordered sets with a comparator of the repository, range adaptor views, priority queues and element
construction inside containers."""
from dom import *
import models
from models import MODELS, model, seq, cloc, entries, mkassoc, sizeof, flat_ta, pval


# ------------------------------------------------------------------ sets ordered by a repository comparator
def tas(I, cls):
    c = I.p.__dict__.setdefault("_tas", {})
    if not c:
        for t in I.p.types:
            if t.get("k") == "rec" and t.get("ta"):
                c.setdefault(t["r"], t["ta"])
    return c.get(cls)


def comparator(I, f, pos=1):
    """operator() overloads of the comparator of the container class f belongs to, None: std::less"""
    c = I.p.__dict__.setdefault("_cmps", {})
    cls = f.get("cls")
    if cls not in c:
        ta = tas(I, cls)
        r = None
        if ta and len(ta) > pos and "t" in ta[pos]:
            t = I.p.ty(ta[pos]["t"])
            if t.get("k") == "rec" and not t.get("q", "std::less").startswith("std::"):
                r = [g for g in I.p.funcs.values() if g["n"] == "operator()" and g.get("cls") == t["r"] and g.get("body") is not None]
        c[cls] = r
    return c[cls]


def isptr(x):
    return isinstance(x, (Loc, Iter)) or x is NULL


def pick_cmp(I, cands, x, y):
    for g in cands:
        if len(g["ps"]) != 2:
            continue
        if all((I.p.ty(I.p.strip_ref(p["t"]))["k"] == "ptr") == isptr(v) for p, v in zip(g["ps"], (x, y))):
            return g
    return None


def before(I, st, cands, x, y, e, fr):
    """[(state, x ordered before y)]"""
    g = pick_cmp(I, cands, x, y)
    if g is None:
        return None
    out = []
    args = [v if isptr(v) else I.newroot(st, v, "cmp") for v in (x, y)]
    for s, r in I.inline(st, g, None, args, e, fr):
        if s.ab:
            return None
        out.extend(I.branch(s, I.tobool(s, I.rv(s, r))))
    return out


def place(I, st, cands, es, k, e, fr):
    """[(state, position, present)] in the sorted entries"""
    out = []
    cur = [st]
    for i, x in enumerate(es):
        nxt = []
        for s in cur:
            r = before(I, s, cands, x, k, e, fr)
            if r is None:
                return None
            for s2, lt in r:
                if lt:
                    nxt.append(s2)
                    continue
                r2 = before(I, s2, cands, k, x, e, fr)
                if r2 is None:
                    return None
                for s3, gt in r2:
                    out.append((s3, i, not gt))
        cur = nxt
    return out + [(s, len(es), False) for s in cur]


def key(I, st, x):
    if isinstance(x, Loc):
        v = I.read(st, x)
        return v if isptr(v) or isinstance(v, P) else x
    return x


def wrap(name, fn):
    old = MODELS[("fam", "ASSOC", name)]

    def g(I, st, f, obj, a, e, fr):
        if "::set<" in f["q"] or "::set::" in f["q"]:
            cands = comparator(I, f)
            if cands:
                return fn(I, st, f, obj, a, e, fr, cands)
        return old(I, st, f, obj, a, e, fr)
    MODELS[("fam", "ASSOC", name)] = g


def argkey(I, st, f, a):
    """the key argument: pointers by value or by reference"""
    v = a[0]
    t = I.p.ty(I.p.strip_ref(f["ps"][0]["t"])) if f["ps"] else {}
    if t.get("k") == "ptr":
        if isinstance(v, Loc):
            w = I.read(st, v)
            # a reference to a pointer object was passed
            if isptr(w):
                return w
        return v
    v = I.rv(st, v)
    return v


def c_find(I, st, f, obj, a, e, fr, cands):
    es = entries(I, st, I.rv(st, obj))
    if es is None:
        return None
    rs = place(I, st, cands, es, argkey(I, st, f, a), e, fr)
    if rs is None:
        return None
    out = []
    for s, i, there in rs:
        if f["n"] == "find":
            out.append((s, Iter(cloc(I, s, obj), P.c(i if there else len(es)))))
        elif f["n"] == "lower_bound":
            out.append((s, Iter(cloc(I, s, obj), P.c(i))))
        else:
            out.append((s, P.c(int(there))))
    return out


def c_insert(I, st, f, obj, a, e, fr, cands):
    es = entries(I, st, I.rv(st, obj))
    if es is None or len(a) != 1 or not isinstance(obj, Loc):
        return None
    k = argkey(I, st, f, a)
    rs = place(I, st, cands, es, k, e, fr)
    if rs is None:
        return None
    out = []
    for s, i, there in rs:
        if not there:
            I.write(s, obj, mkassoc(es[:i] + [k] + es[i:]))
        out.append((s, Rec("pair", {"first": Iter(obj, P.c(i)), "second": P.c(int(not there))})))
    return out


def c_erase(I, st, f, obj, a, e, fr, cands):
    es = entries(I, st, I.rv(st, obj))
    if es is None or len(a) != 1 or not isinstance(obj, Loc):
        return None
    t = I.p.ty(I.p.strip_ref(f["ps"][0]["t"]))
    if t.get("k") == "rec":      # an iterator
        x = I.rv(st, a[0])
        i = x.idx.const() if isinstance(x, Iter) else None
        if i is None:
            return None
        I.write(st, obj, mkassoc(es[:i] + es[i + 1:]))
        return Iter(obj, P.c(i))
    rs = place(I, st, cands, es, argkey(I, st, f, a), e, fr)
    if rs is None:
        return None
    out = []
    for s, i, there in rs:
        if there:
            I.write(s, obj, mkassoc(es[:i] + es[i + 1:]))
        out.append((s, P.c(int(there))))
    return out


def c_begin(I, st, f, obj, a, e, fr, cands):
    es = entries(I, st, I.rv(st, obj))
    return None if es is None else Iter(cloc(I, st, obj), ZERO)


for _n in ("find", "count", "contains"):
    wrap(_n, c_find)
for _n in ("emplace", "insert"):
    wrap(_n, c_insert)
wrap("erase", c_erase)
for _n in ("begin", "cbegin"):
    wrap(_n, c_begin)


# ------------------------------------------------------------------ elements built in place
_oldpush = MODELS[("fam", "SEQ", "emplace_back")]


def build(I, st, f, a, e, fr):
    """[(state, value)] of an element constructed from the arguments, None if its class is not from the repository"""
    ta = tas(I, f.get("cls"))
    if not ta or "t" not in ta[0]:
        return None
    t = I.p.ty(ta[0]["t"])
    if t.get("k") != "rec":
        return None
    if not a:
        return [(st, I.zero(ta[0]["t"]))]
    rec = I.p.records.get(t["r"])
    if rec is None or not rec.get("repo"):
        return None
    if len(a) == 1:
        v = I.rv(st, a[0])
        if isinstance(v, Rec) and v.cls == t["r"]:
            return [(st, v)]
    for m in rec.get("methods", []):
        g = I.p.funcs.get(m)
        if g and g.get("ctor") and len(g["ps"]) == len(a) and g.get("body") is not None and not g.get("copyctor") and not g.get("movector"):
            loc = I.newroot(st, UNINIT, "obj")
            return [(s, None if s.ab else I.read(s, loc)) for s in I.run_ctor(st, g, loc, list(a), fr, {"ln": e.get("ln", 0)})]
    return None


@seq("emplace_back")
def m_emplace_back(I, st, f, obj, a, e, fr):
    if isinstance(obj, Loc):
        r = build(I, st, f, a, e, fr)
        if r is not None:
            out = []
            for s, v in r:
                if s.ab:
                    out.append((s, None))
                    continue
                w = I.asvec(s, I.rv(s, obj))
                I.write(s, obj, Vec(w.n + ONE, w.base, w.writes + ((w.n, v),)))
                if I.on_push:
                    I.on_push(I, s, obj, v, e)
                out.append((s, obj.sub(("i", w.n))))
            return out
    return _oldpush(I, st, f, obj, a, e, fr)


@seq("emplace_front", "push_front")
def m_emplace_front(I, st, f, obj, a, e, fr):
    v = I.asvec(st, I.rv(st, obj))
    n = v.n.const()
    if n is None or n > 200 or not isinstance(obj, Loc):
        return None
    r = build(I, st, f, a, e, fr)
    if r is None:
        r = [(st, I.rv(st, a[0]) if a else ZERO)]
    out = []
    for s, x in r:
        if not s.ab:
            es = [I.elem(s, v, P.c(i)) for i in range(n)]
            I.write(s, obj, mkassoc([x] + es))
        out.append((s, None if s.ab else obj.sub(("i", ZERO))))
    return out


@seq("pop_front")
def m_pop_front(I, st, f, obj, a, e, fr):
    v = I.asvec(st, I.rv(st, obj))
    n = v.n.const()
    if n is None or not 0 < n < 200:
        return None
    I.write(st, obj, mkassoc([I.elem(st, v, P.c(i)) for i in range(1, n)]))
    return VOID


_oldresize = MODELS[("fam", "SEQ", "resize")]


@seq("resize")
def m_resize(I, st, f, obj, a, e, fr):
    if len(a) == 1 and "basic_string" not in f["q"]:
        ta = tas(I, f.get("cls"))
        if ta and "t" in ta[0]:
            return _oldresize(I, st, f, obj, [a[0], I.zero(ta[0]["t"])], e, fr)
    return _oldresize(I, st, f, obj, a, e, fr)


# ------------------------------------------------------------------ views
def source(I, st, x):
    """a range expression as an rview record"""
    if isinstance(x, Rec) and x.cls == "rview":
        return x
    if isinstance(x, Loc):
        v = I.read(st, x)
        if isinstance(v, Rec) and v.cls == "rview":
            return v
        return Rec("rview", {"src": Iter(x, ZERO), "fns": Rec("fns", {})})
    return None


@model("std::ranges::views::_All::operator()")
def m_all(I, st, f, obj, a, e, fr):
    return source(I, st, a[0])


@model("std::ranges::views::__adaptor::_RangeAdaptor::operator()", "std::ranges::views::_Transform::operator()", "std::ranges::views::_Filter::operator()")
def m_adapt(I, st, f, obj, a, e, fr):
    kind = "filter" if "_Filter" in f["q"] else "transform" if "_Transform" in f["q"] else None
    if kind is None:
        return None
    if len(a) == 1:
        return Rec("radapt", {"kind": Str(kind), "fn": I.rv(st, a[0])})
    return apply_adapter(I, st, source(I, st, a[0]), Rec("radapt", {"kind": Str(kind), "fn": I.rv(st, a[1])}))


def apply_adapter(I, st, v, ad):
    if v is None or not isinstance(ad, Rec) or ad.cls != "radapt":
        return None
    fns = v.get("fns")
    return Rec("rview", {"src": v.get("src"), "fns": Rec("fns", dict(fns.fields, **{str(len(fns.fields)): ad}))})


@model("std::ranges::views::__adaptor::operator|")
def m_pipe(I, st, f, obj, a, e, fr):
    return apply_adapter(I, st, source(I, st, a[0]), I.rv(st, a[1]))


def steps(v):
    fns = v.get("fns").fields
    return [fns[str(i)] for i in range(len(fns))]


def bounds(I, st, v):
    """iterators of the underlying container: [(state, begin, length)]"""
    l = v.get("src").loc
    x = I.read(st, l)
    es = entries(I, st, x)
    if es is not None:
        return l, len(es)
    n = sizeof(I, st, x)
    return l, n.const()


def flow(I, st, v, i, e, fr, upto=None):
    """[(state, value or None when filtered out)] of element i of the view"""
    cur = [(st, v.get("src").loc.sub(("i", P.c(i))))]
    for ad in steps(v):
        nxt = []
        for s, x in cur:
            if x is None or s.ab:
                nxt.append((s, None))
                continue
            arg = x if isinstance(x, Loc) else I.newroot(s, x, "view")
            fn = ad.get("fn")
            g = I.p.funcs.get(fn.op) if isinstance(fn, Clo) else None
            if g is not None and g["ps"] and I.p.ty(g["ps"][0]["t"])["k"] == "ptr":
                arg = I.read(s, arg)    # pointers are passed by value
            for s2, r in I.invoke(s, ad.get("fn"), [arg], {"t": -1, "ln": e.get("ln")}, fr):
                if s2.ab:
                    nxt.append((s2, None))
                elif ad.get("kind") == Str("transform"):
                    nxt.append((s2, r))
                else:
                    for s3, b in I.branch(s2, I.tobool(s2, I.rv(s2, r))):
                        nxt.append((s3, x if b else None))
        cur = nxt
    return cur


def filtered(v):
    return any(ad.get("kind") == Str("filter") for ad in steps(v))


def viewmodel(*names):
    return model(*("std::ranges::%s::%s" % (c, n) for c in ("transform_view", "filter_view", "ref_view", "view_interface") for n in names))


def at(I, st, v, i, n, e, fr):
    """iterator to the first element from i on that passes the filters"""
    if not filtered(v):
        return [(st, Rec("riter", {"v": v, "i": P.c(i)}))]
    out, cur = [], [(st, i)]
    while cur:
        s, j = cur.pop()
        if j >= n:
            out.append((s, Rec("riter", {"v": v, "i": P.c(n)})))
            continue
        for s2, x in flow(I, s, v, j, e, fr):
            if s2.ab:
                out.append((s2, None))
            elif x is not None:
                out.append((s2, Rec("riter", {"v": v, "i": P.c(j)})))
            else:
                cur.append((s2, j + 1))
    return out


@viewmodel("begin")
def m_vbegin(I, st, f, obj, a, e, fr):
    v = I.rv(st, obj)
    if not (isinstance(v, Rec) and v.cls == "rview"):
        return None
    l, n = bounds(I, st, v)
    return None if n is None else at(I, st, v, 0, n, e, fr)


@viewmodel("end")
def m_vend(I, st, f, obj, a, e, fr):
    v = I.rv(st, obj)
    if not (isinstance(v, Rec) and v.cls == "rview"):
        return None
    l, n = bounds(I, st, v)
    return None if n is None else Rec("riter", {"v": v, "i": P.c(n)})


@viewmodel("size", "empty", "operator bool")
def m_vsize(I, st, f, obj, a, e, fr):
    v = I.rv(st, obj)
    if not (isinstance(v, Rec) and v.cls == "rview") or filtered(v):
        return None
    l, n = bounds(I, st, v)
    if n is None:
        return None
    return P.c(n) if f["n"] == "size" else P.c(int(n == 0)) if f["n"] == "empty" else P.c(int(n > 0))


@viewmodel("front", "back", "operator[]")
def m_vat(I, st, f, obj, a, e, fr):
    v = I.rv(st, obj)
    if not (isinstance(v, Rec) and v.cls == "rview") or filtered(v):
        return None
    l, n = bounds(I, st, v)
    i = 0 if f["n"] == "front" else n - 1 if f["n"] == "back" else I.rv(st, a[0]).const()
    return None if n is None or i is None else flow(I, st, v, i, e, fr)


def riter(I, st, f, obj, a, e, fr):
    xs = ([obj] if obj is not None else []) + list(a)
    v = I.rv(st, xs[0])
    if not (isinstance(v, Rec) and v.cls == "riter"):
        return None
    n = f["n"]
    i = v.get("i").const()
    view = v.get("v")
    if n == "operator*":
        return flow(I, st, view, i, e, fr)
    if n in ("operator++", "operator--"):
        l, m = bounds(I, st, view)
        if n == "operator--":
            if filtered(view):
                return None
            r = [(st, v.set("i", P.c(i - 1)))]
        else:
            r = at(I, st, view, i + 1, m, e, fr)
        out = []
        for s, x in r:
            if not s.ab:
                I.write(s, xs[0], x)
            out.append((s, None if s.ab else v if len(xs) == 2 else xs[0]))
        return out
    if n in ("operator==", "operator!="):
        o = I.rv(st, xs[1])
        if isinstance(o, Rec) and o.cls == "riter":
            r = o.get("i") == v.get("i")
            return P.c(int(r == (n == "operator==")))
    return None


for _n in ("*", "++", "--", "==", "!="):
    for _c in ("std::ranges::transform_view::_Iterator", "std::ranges::filter_view::_Iterator", "std::ranges"):
        k = _c + "::operator" + _n
        if k not in MODELS:
            MODELS[k] = riter


# ------------------------------------------------------------------ priority queues
# std::priority_queue: Vec of its elements in any order; top() branches on which one is largest
def pq(*names):
    return model(*("std::priority_queue::" + n for n in names))


@pq("push", "emplace")
def m_pqpush(I, st, f, obj, a, e, fr):
    es = entries(I, st, I.rv(st, obj))
    if es is None:
        return None
    v = I.rv(st, a[0]) if len(a) == 1 else Rec("pair", {"first": I.rv(st, a[0]), "second": I.rv(st, a[1])}) if len(a) == 2 else None
    if v is None:
        return None
    if isinstance(v, Rec) and v.cls != "pair" and set(v.fields) == {"first", "second"}:
        v = Rec("pair", dict(v.fields))
    I.write(st, obj, mkassoc(es + [v]))
    return VOID


@pq("size")
def m_pqsize(I, st, f, obj, a, e, fr):
    es = entries(I, st, I.rv(st, obj))
    return None if es is None else P.c(len(es))


@pq("empty")
def m_pqempty(I, st, f, obj, a, e, fr):
    es = entries(I, st, I.rv(st, obj))
    return None if es is None else P.c(int(not es))


def largest(I, st, f, es):
    """[(state, index of an element no other one is greater than)]; default comparator only"""
    ta = tas(I, f.get("cls"))
    greater = False
    if ta and len(ta) > 2 and "t" in ta[2]:
        q = I.p.ty(ta[2]["t"]).get("q", "")
        if q.endswith("greater"):
            greater = True
        elif not q.endswith("less"):
            return None
    cur = [(st, 0)]
    for i in range(1, len(es)):
        nxt = []
        for s, b in cur:
            x, y = (es[i], es[b]) if greater else (es[b], es[i])
            nxt.extend((s2, i if t else b) for s2, t in I.branch(s, I.less(s, x, y)))
        cur = nxt
    return cur


@pq("top")
def m_pqtop(I, st, f, obj, a, e, fr):
    es = entries(I, st, I.rv(st, obj))
    if es == []:
        st.ev = st.ev + [("oob", "top of an empty queue")]
    if not es:
        return None
    r = largest(I, st, f, es)
    return None if r is None else [(s, cloc(I, s, obj).sub(("i", P.c(i)))) for s, i in r]


@pq("pop")
def m_pqpop(I, st, f, obj, a, e, fr):
    es = entries(I, st, I.rv(st, obj))
    if es == []:
        st.ev = st.ev + [("oob", "pop of an empty queue")]
    if not es:
        return None
    r = largest(I, st, f, es)
    if r is None:
        return None
    for s, i in r:
        I.write(s, obj, mkassoc(es[:i] + es[i + 1:]))
    return [(s, VOID) for s, i in r]


# free operators of deque iterators
for _n in ("-", "+"):
    _k = "std::operator" + _n
    _o = MODELS.get(_k)

    def _free(I, st, f, obj, a, e, fr, _o=_o):
        if any(isinstance(I.rv(st, x), Iter) for x in a):
            r = models.iterop(I, st, f, obj, a, e, fr)
            if r is not None:
                return r
        return _o(I, st, f, obj, a, e, fr) if _o else None
    MODELS[_k] = _free
