"""The alternative random engines: generator, jump, seeding, block cipher, counter."""
import os
import re as R
from check import prop
from front import VERIF, REPO, AnalysisBroken
from interp import *
from front import load
from bits import *
from c_args import ROOTS

_e = {}
M64 = (1 << 64) - 1
PI = 0x3243F6A8885A308D313198A2E03707344A4093822299F31D0082EFA98EC4E6C89452821E638D01377BE5466CF34E90C6


def eprog():
    if not _e:
        _e[0] = load("engine.cpp", [], "c++17", roots=ROOTS)
    return _e[0]


def binterp(p):
    I = BitInterp(p, widen=False)
    I.keep = 4096
    I.oob = True
    return I


def arr(xs):
    return Vec(P.c(len(xs)), ("fill", ZERO), tuple((P.c(i), x) for i, x in enumerate(xs)))


U8 = NumTy("i", 8, False)


def sym(v, w):
    return lower(v, NumTy("i", w, False))


def words(v, n, w, I=None, st=None):
    """the n elements of an array value as bit vectors"""
    out = []
    for i in range(n):
        x = I.elem(st, v, P.c(i))
        x = I.rv(st, x) if isinstance(x, Loc) else x
        if isinstance(x, Sym):
            x = I.typed(x, None) if x.ty is None else P.a(x)
        b = bits_of(x, w) if isinstance(x, P) else None
        out.append(b)
    return out


def fields(v):
    """arrays stored in a record, in declaration order"""
    return {k: x for k, x in v.fields.items()}


def state_of(c, I, rec, st, n=4):
    """the n words of the generator state, wherever the record keeps them"""
    xs = []

    def go(v):
        if isinstance(v, Vec):
            k = I.count(v)
            for i in range(k or 0):
                x = I.elem(st, v, P.c(i))
                xs.append(x)
        elif isinstance(v, Rec):
            for x in v.fields.values():
                go(x)
        else:
            xs.append(v)
    go(rec)
    out = [bits_of(x if isinstance(x, P) else P.a(x) if isinstance(x, Sym) else x, 64) if isinstance(x, (P, Sym)) else None for x in xs]
    if len(out) != n or None in out:
        raise AnalysisBroken("the state of the engine is not %d words: %r" % (n, [repr(x)[:60] for x in xs]))
    return out


def single(I, f, this, args, st):
    ps = list(I.run(f, this, args, st))
    if I.stats["unknown"]:
        raise AnalysisBroken("not modelled: %r" % dict(list(I.stats["unknown"].items())[:4]))
    if len(ps) > 1:
        q = I.collect(ps)
        ps = ps if q is None else [q]
    if len(ps) != 1 or ps[0].kind not in ("return", "end"):
        raise AnalysisBroken("%s: %d paths %r" % (f["q"], len(ps), [q.kind for q in ps[:4]]))
    return ps[0]


def built(I, p, fn, *args):
    """value of the record that a driver function returns, and its final state"""
    st = State()
    a = []
    for i, x in enumerate(args):
        l = Loc(("s", "a%d" % i))
        st.store[l.root] = x
        a.append(l)
    q = single(I, p.find("drv::" + fn), None, a, st)
    v = q.val
    v = I.rv(q.st, v) if isinstance(v, Loc) else v
    return v, q.st


def xstate(I, p, ws):
    v, st = built(I, p, "xstate", arr([sym(w, 64) for w in ws]))
    return v, st


def xrun(I, p, fn, ws):
    """run a driver that takes the generator by reference on the state ws"""
    v, _ = xstate(I, p, ws)
    st = State()
    l = Loc(("s", "gen"))
    st.store[l.root] = v
    q = single(I, p.find("drv::" + fn), None, [l], st)
    return state_of(None, I, q.st.store[l.root], q.st), q.val, q.st


# ------------------------------------------------------------------ GF(2) matrices: column b = image of state bit b
def matrix(ws, ids):
    cols = [0] * len(ids)
    pos = {b: i for i, b in enumerate(ids)}
    for k, w in enumerate(ws):
        if w.c or w.tab or any(b not in pos for b in w.lin):
            return None
        for b, m in w.lin.items():
            cols[pos[b]] ^= m << (64 * k)
    return cols


def apply(A, x):
    r = 0
    while x:
        l = x & -x
        r ^= A[l.bit_length() - 1]
        x ^= l
    return r


def mul(A, B):
    # blocks of eight columns of A
    tabs = []
    for k in range(0, len(A), 8):
        t = [0] * 256
        for i in range(8):
            for j in range(1 << i):
                t[j | 1 << i] = t[j] ^ A[k + i]
        tabs.append(t)
    out = []
    for x in B:
        r = 0
        for t in tabs:
            r ^= t[x & 255]
            x >>= 8
        out.append(r)
    return out


def ident(n):
    return [1 << i for i in range(n)]


def mpow(A, e):
    R = None
    while e:
        if e & 1:
            R = A if R is None else mul(R, A)
        A = mul(A, A)
        e >>= 1
    return R


FACTORS = [3, 5, 17, 257, 641, 65537, 274177, 6700417, 67280421310721, 59649589127497217, 5704689200685129054721]


def rotl(v, k, w=64):
    m = (1 << w) - 1
    return v.map(lambda x: ((x << k) | (x >> (w - k))) & m)


def reference_step(s):
    """xoshiro256** as published by Blackman and Vigna"""
    s0, s1, s2, s3 = s
    r = linsum([(9, rotl(linsum([(5, s1)], 64), 7))], 64)
    t = s1.map(lambda x: (x << 17) & M64)
    s2 = s2 ^ s0
    s3 = s3 ^ s1
    s1 = s1 ^ s2
    s0 = s0 ^ s3
    s2 = s2 ^ t
    s3 = rotl(s3, 45)
    return [s0, s1, s2, s3], r


def symbolic(nm="s"):
    ws = [word((nm, i), 64) for i in range(4)]
    ids = [bit(((nm, i), j)) for i in range(4) for j in range(64)]
    return ws, ids


def ret(I, q, w=64):
    v = q
    if isinstance(v, Sym):
        v = P.a(v)
    return bits_of(v, w) if isinstance(v, P) else None


def limits(c, p, I, lo, hi, what):
    for fn, want in ((lo, 0), (hi, M64)):
        q = single(I, p.find("drv::" + fn), None, [], State())
        v = q.val
        c.expect(v.const() is not None and v.const() & M64 == want, "limits", what + "::" + ("min" if want == 0 else "max"), "returns %r instead of %d" % (v, want))


@prop("E01", floor=12)
def e01(c):
    p = eprog()
    I = binterp(p)
    c.rule("transition", "one call of operator() maps the state to the published linear successor, for every state")
    c.rule("output", "the returned word is rotl(5*s1, 7)*9 of the state before the call")
    c.rule("period", "the transition matrix over GF(2) has order 2^256-1, so all nonzero states lie on one cycle")
    c.rule("limits", "min() and max() are the least and greatest 64 bit word")
    ws, ids = symbolic()
    new, v, st = xrun(I, p, "xstep", ws)
    want, out = reference_step(ws)
    for i in range(4):
        c.expect(same(new[i], want[i]), "transition", "Xoshiro256ss::operator() state[%d]" % i, diff(new[i], want[i]))
    r = ret(I, v)
    c.expect(same(r, out), "output", "Xoshiro256ss::operator()", "the result is %s" % describe(r))
    T = matrix(new, ids)
    if T is None:
        c.expect(None, "period", "Xoshiro256ss::operator()", "the successor state is not a linear function of the state")
    else:
        n = (1 << 256) - 1
        c.expect(mpow(T, n) == ident(256), "period", "T^(2^256-1) = 1", "the period does not divide 2^256-1")
        for f in FACTORS:
            c.expect(mpow(T, n // f) != ident(256), "period", "T^((2^256-1)/%d) != 1" % f, "the period divides (2^256-1)/%d" % f)
        c.count("matrix powers", 1 + len(FACTORS))
    limits(c, p, I, "xmin", "xmax", "Xoshiro256ss")
    c.count("state bits", 256)
    c.count("abstract calls", I.stats["calls"])


def diff(a, b):
    if a is None:
        return "outside the domain"
    d = a ^ b
    return "differs in the bits %x (linear part: %d input bits, %d tables)" % (d.possible() | d.c, len(d.lin), len(d.tab))


def allsame(a, b):
    if len(a) != len(b):
        return None
    rs = [same(x, y) for x, y in zip(a, b)]
    return False if False in rs else None if None in rs else True


def describe(r):
    if r is None:
        return "outside the domain"
    t, k = parts(r, 64)
    return " + ".join(["%x * word" % x for x in t.values()] + ["%x" % k])[:200]


@prop("E04", floor=12)
def e04(c):
    p = eprog()
    I = binterp(p)
    c.rule("jump", "jump() maps every state to the state that 2^128 calls of operator() lead to")
    c.rule("state", "the array constructor uses the given words as the state")
    c.rule("seed", "the seed constructor starts from the leading 256 bits of pi, each word combined with the seed, followed by one jump")
    c.rule("distinct", "different seeds give different, nonzero states")
    ws, ids = symbolic()
    v, st = xstate(I, p, ws)
    got = state_of(c, I, v, st)
    order = sorted(range(4), key=lambda i: i)
    for i in range(4):
        c.expect(same(got[i], ws[i]), "state", "Xoshiro256ss(array) word %d" % i, diff(got[i], ws[i]))
    new, _, _ = xrun(I, p, "xstep", ws)
    T = matrix(new, ids)
    jmp, _, _ = xrun(I, p, "xjump", ws)
    J = matrix(jmp, ids)
    if T is None or J is None:
        # a jump is a power of a linear map
        lin = None
        if T is not None:
            rnd = [Bv(w.c, {b: m for b, m in w.lin.items() if b in ids}) for w in jmp]
            lin = False if any(w.c for w in jmp) or any(same(w, r) is False for w, r in zip(jmp, rnd)) else None
        c.expect(lin, "jump", "Xoshiro256ss::jump()", "not a linear function of the state")
        return
    want = mpow(T, 1 << 128)
    for i in range(4):
        m = M64 << (64 * i)
        c.expect(all((J[b] ^ want[b]) & m == 0 for b in range(256)), "jump", "Xoshiro256ss::jump() state[%d]" % i, "differs from T^(2^128) in the images of %d state bits" % sum((J[b] ^ want[b]) & m != 0 for b in range(256)))
    # seeding
    s = word(("seed",), 64)
    sid = [bit((("seed",), j)) for j in range(64)]
    v, st = built(I, p, "xseed", sym(s, 64))
    got = state_of(c, I, v, st)
    pi = [(PI >> (64 * (5 - i))) & M64 for i in range(4)]
    start = [Bv(x) ^ s for x in pi]
    # the documented state: J applied to the affine start
    exp_c = apply(J, sum(x << (64 * i) for i, x in enumerate(pi)))
    for i in range(4):
        lin = {}
        for j, b in enumerate(sid):
            m = (apply(J, sum(1 << (64 * k + j) for k in range(4))) >> (64 * i)) & M64
            if m:
                lin[b] = m
        w = Bv((exp_c >> (64 * i)) & M64, lin)
        c.expect(same(got[i], w), "seed", "Xoshiro256ss(seed) word %d" % i, diff(got[i], w))
    # seed -> state is injective and never zero
    cols = []
    for b in sid:
        cols.append(sum(got[i].lin.get(b, 0) << (64 * i) for i in range(4)))
    const = sum(got[i].c << (64 * i) for i in range(4))
    basis = []
    for x in cols:
        for y in basis:
            x = min(x, x ^ y)
        if x:
            basis.append(x)
    c.expect(len(basis) == 64, "distinct", "Xoshiro256ss(seed)", "the seed only reaches %d dimensions of the state" % len(basis))
    x = const
    for y in basis:
        x = min(x, x ^ y)
    c.expect(x != 0, "distinct", "Xoshiro256ss(seed) nonzero", "some seed gives the all zero state")
    c.count("state bits", 256)
    c.count("abstract calls", I.stats["calls"])


# ------------------------------------------------------------------ AES
def gmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 256:
            a ^= 0x11b
        b >>= 1
    return r


def sbox():
    out = []
    for x in range(256):
        y = 0
        if x:
            y = next(k for k in range(256) if gmul(x, k) == 1)
        r = 0x63
        for i in range(5):
            r ^= ((y << i) | (y >> (8 - i))) & 255
        out.append(r)
    return out


SB = None


def sub(v):
    global SB
    if SB is None:
        SB = sbox()
    return pointwise(v, lambda x: SB[x])


def expand_key(key):
    """FIPS-197 key expansion for 256 bit keys: 60 words of four bytes"""
    w = [key[4 * i:4 * i + 4] for i in range(8)]
    rc = 1
    for i in range(8, 60):
        t = list(w[i - 1])
        if i % 8 == 0:
            t = [sub(x) for x in t[1:] + t[:1]]
            t[0] = t[0] ^ Bv(rc)
            rc = gmul(rc, 2)
        elif i % 8 == 4:
            t = [sub(x) for x in t]
        w.append([a ^ b for a, b in zip(w[i - 8], t)])
    return w


def encrypt(w, block, names=None):
    """FIPS-197 cipher; w: 60 expanded key words; column major state"""
    s = [block[4 * k:4 * k + 4] for k in range(4)]     # columns
    s = [[a ^ b for a, b in zip(s[k], w[k])] for k in range(4)]
    for r in range(1, 15):
        s = [[sub(x) for x in col] for col in s]
        s = [[s[(k + i) % 4][i] for i in range(4)] for k in range(4)]
        if r < 14:
            t = []
            for col in s:
                n = []
                for i in range(4):
                    m = [(2, col[i]), (3, col[(i + 1) % 4]), (1, col[(i + 2) % 4]), (1, col[(i + 3) % 4])]
                    x = Bv(0)
                    for k, v in m:
                        x = x ^ v.map(lambda q: gmul(q, k))
                    n.append(x)
                t.append(n)
            s = t
        s = [[a ^ b for a, b in zip(s[k], w[4 * r + k])] for k in range(4)]
    return [x for col in s for x in col]


def bytesof(nm, n):
    return [word((nm, i), 8) for i in range(n)]


def leaves(v, I, st, xs):
    if isinstance(v, Vec):
        for i in range(I.count(v) or 0):
            leaves(I.elem(st, v, P.c(i)), I, st, xs)
    elif isinstance(v, Rec):
        for x in v.fields.values():
            leaves(x, I, st, xs)
    else:
        xs.append(v)
    return xs


@prop("E02", floor=16)
def e02(c):
    p = eprog()
    I = binterp(p)
    c.rule("cipher", "AES(key)(block) is AES-256 of FIPS-197: each byte of the result has the canonical form of the reference, for every key and block")
    c.rule("pure", "encryption does not change the key schedule and reads nothing but the key and the block")
    c.rule("tables", "no table is read outside of its bounds")
    key, blk = bytesof("key", 32), bytesof("block", 16)
    v, st = built(I, p, "akey", arr([sym(x, 8) for x in key]))
    l, b = Loc(("s", "aes")), Loc(("s", "block"))
    s = State()
    s.store[l.root], s.store[b.root] = v, arr([sym(x, 8) for x in blk])
    q = single(I, p.find("drv::acrypt"), None, [l, b], s)
    out = q.val
    out = I.rv(q.st, out) if isinstance(out, Loc) else out
    want = encrypt(expand_key(key), blk)
    for i in range(16):
        x = I.elem(q.st, out, P.c(i))
        x = P.a(x) if isinstance(x, Sym) else x
        g = bits_of(x, 8)
        c.expect(same(g, want[i]), "cipher", "AES::operator() byte %d" % i, "" if g is None else diff(g, want[i]))
    c.expect(q.st.store[l.root] == v and not [e for e in q.ev if e[0] == "write"], "pure", "AES::operator()", "the key schedule changes")
    c.expect(not [e for e in q.ev + st.ev if e[0] == "oob"], "tables", "AES", repr([e for e in q.ev + st.ev if e[0] == "oob"][:2]))
    c.count("key and block bits", 384)
    c.count("substitution atoms", len(_adefs()))
    c.count("abstract calls", I.stats["calls"])


def _adefs():
    import bits
    return bits._adef


@prop("E05", floor=500)
def e05(c):
    p = eprog()
    I = binterp(p)
    c.rule("counter", "each call adds one to the 128 bit little endian counter, with every carry")
    c.rule("output", "the result is the xor of both little endian halves of the encrypted counter")
    c.rule("key", "the cipher and its key stay the same")
    c.rule("seed", "the seed constructor uses the digits of pi as key and counter and combines the low half of the counter with the seed")
    c.rule("limits", "min() and max() are the least and greatest 64 bit word")
    op = p.find("AES::operator()")
    enc = [word(("enc", i), 8) for i in range(16)]
    seen = []

    def h(I, st, f, obj, args, e, fr):
        a = I.rv(st, args[0])
        seen.append((I.rv(st, obj), words(a, 16, 8, I, st)))
        return [(st, arr([sym(x, 8) for x in enc]))]
    I.hooks[norm(op["q"])] = h
    key = bytesof("key", 32)
    iv = bytesof("iv", 16)
    J = binterp(p)
    v0, _ = built(J, p, "rkey", arr([sym(x, 8) for x in key]), arr([sym(x, 8) for x in iv]))
    cnt = [n for n, x in v0.fields.items() if isinstance(x, Vec) and J.count(x) == 16 and words(x, 16, 8, J, State()) == iv]
    if len(cnt) != 1:
        raise AnalysisBroken("the counter of AES_RNG is not a single 16 byte array")
    cnt = cnt[0]
    # the counters are cut by the position of their lowest zero bit: nothing else decides where the carry ends
    for z in list(range(128)) + [None]:
        k, j = (16, 0) if z is None else divmod(z, 8)
        cur = [Bv(255) if i < k else iv[i] for i in range(16)]
        nxt = [Bv(0) if i < k else iv[i] for i in range(16)]
        if z is not None:
            high = iv[k].map(lambda x: x >> (j + 1) << (j + 1))
            cur[k], nxt[k] = high ^ Bv((1 << j) - 1), high ^ Bv(1 << j)
        what = "AES_RNG::operator() with %s" % ("all bits of the counter set" if z is None else "lowest zero bit %d of the counter" % z)
        v = v0.set(cnt, arr([sym(x, 8) for x in cur]))
        st = State()
        l = Loc(("s", "gen"))
        st.store[l.root] = v
        del seen[:]
        q = single(I, p.find("drv::rstep"), None, [l], st)
        after = q.st.store[l.root]
        b0, b1 = leaves(v, I, q.st, []), leaves(after, I, q.st, [])
        if len(seen) != 1:
            c.bad("output", what, "the cipher is called %d times" % len(seen))
            continue
        aes, blk = seen[0]
        if len(b0) != len(b1) or len(b0) < 16:
            c.expect(None, "counter", what, "state of %d values" % len(b0))
            continue
        f0, f1 = list(v.fields.items()), list(after.fields.items())
        got = words(after.get(cnt), 16, 8, I, q.st)
        for i in range(16):
            r = same(got[i], nxt[i])
            if not r:
                c.expect(r, "counter", what, "byte %d: %s" % (i, "" if got[i] is None else diff(got[i], nxt[i])))
                break
        else:
            c.ok("counter", what)
        c.expect(allsame(blk, nxt), "output", what + ": encrypted block", "not the new counter")
        rest = [(n, x) for n, x in f0 if n != cnt] == [(n, x) for n, x in f1 if n != cnt]
        c.expect(rest and any(x == aes for n, x in f0), "key", what, "the cipher object changes")
        r = ret(I, q.val)
        want = Bv(0)
        for i in range(16):
            want = want ^ enc[i].map(lambda x: x << (8 * (i % 8)))
        c.expect(same(r, want), "output", what + ": result", "" if r is None else diff(r, want))
    # seeding
    s = word(("seed",), 64)
    J = binterp(p)
    v, st = built(J, p, "rseed", sym(s, 64))
    pib = PI.to_bytes(48, "big")
    k, i = list(pib[:32]), [Bv(x) for x in pib[32:]]
    for j in range(8):
        i[j] = i[j] ^ s.map(lambda x: (x >> (8 * j)) & 255)
    J2 = binterp(p)
    w, st2 = built(J2, p, "rkey", arr([P.c(x) for x in k]), arr([sym(x, 8) for x in i]))
    a, b = leaves(v, J, st, []), leaves(w, J2, st2, [])
    a, b = [bits_of(x, 8) for x in a], [bits_of(x, 8) for x in b]
    cnt = words([x for x in v.fields.values() if isinstance(x, Vec) and J.count(x) == 16][0], 16, 8, J, st)
    for j in range(16):
        c.expect(same(cnt[j], i[j]), "seed", "AES_RNG(seed) counter byte %d" % j, "" if cnt[j] is None else diff(cnt[j], i[j]))
    c.expect(allsame(a, b), "seed", "AES_RNG(seed) key schedule", "not the expanded digits of pi")
    limits(c, p, binterp(p), "rmin", "rmax", "AES_RNG")
    c.count("carry classes", 129)
    c.count("abstract calls", I.stats["calls"])


# ------------------------------------------------------------------ the engines as replacements in validate.h
ALIAS = R.compile(r"^(\s*using\s+RandomEngine\s*=\s*)[^;]+;", R.M)
ENGINES = [("Xoshiro256ss", "rng.h"), ("AES_RNG", "secure_rng.h")]


def shadow(cls, header):
    """validate.h with the documented configuration point set to cls; the drivers of the random functions use it"""
    d = os.path.join(VERIF, "build", "shadow", cls)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(REPO, "src", "validate.h")) as f:
        t = f.read()
    t, n = ALIAS.subn(r"\g<1>%s;" % cls, t)
    if n != 1:
        raise AnalysisBroken("the alias RandomEngine is defined %d times" % n)
    with open(os.path.join(VERIF, "drivers", "rand.cpp")) as f:
        drv = f.read()
    inc = '#include "validate.h"\n'
    if drv.count(inc) != 1:
        raise AnalysisBroken("driver of the random functions")
    for name, text in (("validate.h", '#include "%s"\n' % header + t), ("rand.cpp", drv.replace(inc, inc + '#include "graph_gen.h"\n') + "namespace drv {RandomEngine fresh(UInteger s) {return RandomEngine(s);}}\n")):
        tmp = os.path.join(d, name + ".%d" % os.getpid())
        with open(tmp, "w") as f:
            f.write(text)
        os.replace(tmp, os.path.join(d, name))
    return load(os.path.join(d, "rand.cpp"), [], "c++20", roots=ROOTS + [d])


@prop("E03", floor=200)
def e03(c):
    import c_rand
    c.rule("compiles", "validate.h and graph_gen.h compile with the engine in place of the Mersenne Twister")
    c.rule("entropy", "no random function reaches a source of entropy, a clock, or a standard facility whose result is left to the implementation")
    c.rule("state", "the random functions and the engine read no mutable variable but the engine object")
    c.rule("engine", "the engine is only asked for its next word, and only seed() replaces it")
    c.rule("order", "no two operands evaluated in unspecified order both draw")
    c.rule("seed", "seed(s) leaves the engine in exactly the state of an engine constructed from s, whatever it did before")
    c.rule("pure", "operator() and the constructors touch nothing but the engine and constants")
    for cls, header in ENGINES:
        try:
            p = shadow(cls, header)
        except AnalysisBroken as e:
            if "exporter failed" not in str(e) and "does not compile" not in str(e):
                raise
            c_rand.rprog()      # with the default engine they do
            c.bad("compiles", "validate.h with " + cls, str(e)[-400:])
            continue
        c.expect(not p.errors, "compiles", "validate.h with " + cls, repr(p.errors[:2])[:400])
        if p.errors:
            continue
        g = p.glob("Random::details::randomNumberGenerator")
        if p.ty(g["t"]).get("s", "").split("::")[-1] != cls and cls not in repr(p.ty(g["t"])):
            raise AnalysisBroken("the engine object is a " + repr(p.ty(g["t"])))
        c_rand.determinism(c, p, [f for f in p.funcs.values() if f["q"].startswith("Random::") and f.get("repo")])
        # the engine itself
        eng = [f for f in p.funcs.values() if f["q"].startswith((cls + "::", "AES::")) and f.get("repo") and f.get("body")]
        for f in c_rand.closure(p, eng).values():
            for n in c_rand.nodes(f.get("body")):
                if n.get("k") == "ref" and n.get("dk") in ("gvar", "var"):
                    v = p.globals.get(n.get("d"))
                    if v is not None:
                        c.expect(bool(v.get("const") or v.get("constexpr")), "pure", f["q"], "line %s uses the mutable variable %s" % (n.get("ln"), v["q"]))
            c.count("engine functions")
        # seed() forgets the past
        I = binterp(p)
        s = word(("seed",), 64)
        st = State()
        gl = Loc(("g", g["id"]))
        past = I.rawroot(st, gl.root)
        q = single(I, p.find("Random::seed"), None, [sym(s, 64)], st)
        after = q.st.store[gl.root]
        J = binterp(p)
        r = single(J, p.find("drv::fresh"), None, [sym(s, 64)], State())
        fr, st2 = r.val, r.st
        fr = J.rv(st2, fr) if isinstance(fr, Loc) else fr
        a, b = leaves(after, I, q.st, []), leaves(fr, J, st2, [])
        a, b = [bits_of(x, 64) for x in a], [bits_of(x, 64) for x in b]
        c.expect(allsame(a, b) if b else None, "seed", "Random::seed with " + cls, "the state is not that of a new engine")
        c.count("engines")
