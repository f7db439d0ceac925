"""Command line arguments: groups of parameters, raw words, typed access, settings and role streams."""
from check import prop
from front import *
from interp import *
from envs import *
import models
import readers as RD
import regexdfa as R

ROOTS = [REPO + "/src", os.path.join(VERIF, "drivers")]
CMD = R.compile("--[\\s\\S]+")
_p = {}


def prog(flags=()):
    if flags not in _p:
        _p[flags] = load("args.cpp", list(flags), "c++17", roots=ROOTS)
    return _p[flags]


def interp(p):
    I = Interp(p, widen=True)
    I.keep = 5000

    def h_parse(I, st, f, obj, args, e, fr):
        """conversion of a word: decided on its own (property R10), here only success and value"""
        s = models.pval(I, st, I.rv(st, args[0]))
        ti = p.strip_ref(f["ps"][1]["t"])
        ts = simp(p.ts(ti))
        if "string" in ts:
            I.write(st, args[1], s)
            return [(st, ONE)]
        ty = I.nty(ti)
        kind = "Integer" if ty is I64 else "Real"
        out = []
        for x, ok in I.branch(st, P.a(Sym("parses", (kind, s), BOOL))):
            I.write(x, args[1], P.a(Sym("number" if ok else "junk", (kind, s), ty)))
            out.append((x, P.c(ok)))
        return out

    def h_token(I, st, f, obj, args, e, fr):
        return [(st, P.a(Sym("isToken", (models.pval(I, st, I.rv(st, args[0])),), BOOL)))]
    I.hooks["details::parse"] = h_parse
    I.hooks["details::isToken"] = h_token
    return I


def W(i):
    return Sym("argv", (i,))


def parsers(p, I, n, st=None, words=None):
    """states after CommandParser(n, argv) with n arbitrary words"""
    words = words or [W(i) for i in range(n)]
    rec = p.rec("CommandParser")
    ctor = [p.funcs[m] for m in rec["methods"] if p.funcs[m].get("ctor") and len(p.funcs[m]["ps"]) == 2]
    if len(ctor) != 1:
        raise AnalysisBroken("CommandParser(argc, argv) not found")
    st = st or State()
    av = Loc(("s", "argv"))
    st.store[av.root] = Vec(P.c(n), ("fill", NULL), tuple((P.c(i), w) for i, w in enumerate(words)))
    loc = Loc(("s", "parser"))
    sts = I.run_ctor(st, ctor[0], loc, [P.c(n), Iter(av, ZERO)], Frame(("f", -1), None, None, None, 0), {"ln": 0})
    return loc, sts


def cases(I, facts, n, extra=()):
    """all complete cases a path leaves open: (facts, [is command], partition) where partition maps
    each word to the index of the first equal one"""
    out = [(facts, [])]
    for i in range(n):
        nxt = []
        for F, ks in out:
            pos, neg, _ = RD.lang(I, F, W(i))
            for b in (True, False):
                if R.witness(pos + ([CMD] if b else []), neg + ([] if b else [CMD])) is not None:
                    nxt.append((F, ks + [b]))
        out = nxt
    words = [W(i) for i in range(n)] + list(extra)
    res = []
    for F, ks in out:
        cur = [(F, [])]
        for i in range(len(words)):
            nxt = []
            for G, cls in cur:
                reps = sorted(set(cls))
                # word i joins one of the classes seen so far or opens its own
                for c in reps + [None]:
                    H = G.copy()
                    okk = True
                    for j in range(i):
                        st = State()
                        st.facts = H
                        b = I.same(st, words[j], words[i])
                        if not H.assume(b, cls[j] == c):
                            okk = False
                            break
                        if cls[j] == c and i < n and j < n and ks[i] != ks[j]:
                            okk = False
                            break
                    if okk:
                        nxt.append((H, cls + [i if c is None else c]))
            cur = nxt
        res.extend((F2, ks, cls) for F2, cls in cur)
    return res


def groups(ks):
    """[(word index or -1, first parameter, number of parameters)]"""
    out = [[-1, 0, 0]]
    for i, k in enumerate(ks):
        if k:
            out.append([i, i + 1, 0])
        else:
            out[-1][2] += 1
    return out


def outcome(I, p, st, fn, *args):
    return I.run(p.find("drv::" + fn), None, list(args), st.fork())


def observe(c, I, p, st, k, cmd, found, words, what):
    """compare every accessor of a Command value with the specification: found, words"""
    loc = Loc(("s", "cmd"))
    st.store[loc.root] = cmd
    for nm in ("exists", "truth"):
        for q in outcome(I, p, st, nm, loc):
            c.expect(q.kind == "return" and q.facts.query(q.val) is found, "lookup", k, "%s: %s() yields %s" % (what, nm, q.val))
    for q in outcome(I, p, st, "count", loc):
        c.expect(q.kind == "return" and isinstance(q.val, P) and q.val.const() == len(words), "lookup", k, "%s: parameterCount() yields %s, specified %d" % (what, q.val, len(words)))
    for i in range(-1, len(words) + 1):
        for q in outcome(I, p, st, "param", loc, P.c(i)):
            if q.kind != "return":
                c.bad("lookup", k, "%s: parameter %d: %s" % (what, i, q.kind))
                continue
            pl = Loc(("s", "par"))
            q.st.store[pl.root] = q.val
            for r in outcome(I, p, q.st, "pexists", pl):
                c.expect(r.kind == "return" and r.facts.query(r.val) is (0 <= i < len(words)), "lookup", k, "%s: parameter %d exists() yields %s" % (what, i, r.val))
            if 0 <= i < len(words):
                for r in outcome(I, p, q.st, "pstring", pl):
                    c.expect(r.kind == "return" and r.val == words[i], "lookup", k, "%s: parameter %d is %s, specified %s" % (what, i, r.val, words[i]))
    for q in outcome(I, p, st, "first", loc):
        if words:
            c.expect(q.kind == "return" and q.val == words[0], "lookup", k, "%s: asString() yields %s" % (what, q.val if q.kind == "return" else q.kind))
        else:
            c.expect(q.kind == "throw", "lookup", k, "%s: asString() without a parameter yields %s" % (what, q.val))


@prop("R18", 300)
def r18(c):
    """grouping of command line words"""
    c.rule("grouping", "every '--name' word opens a group that holds exactly the words up to the next '--' word; words before the first one belong to the unnamed group; "
                       "two equal '--name' words are refused, nothing else is")
    c.rule("lookup", "a lookup finds exactly the group (or raw word) of that name and yields its words, count and existence; names with whitespace are refused")
    p = prog()
    I = interp(p)
    N = 4 if c.thorough else 3
    c.note(f"all argument vectors of 0..{N} arbitrary words")
    Q = Sym("query")
    for n in range(N + 1):
        k = "CommandParser"
        loc, sts = parsers(p, I, n)
        for s in sts:
            if s.ab is not None and s.ab[0] not in ("throw",):
                c.undecided("grouping", k, str(s.ab[0]))
                continue
            cs = cases(I, s.facts, n)
            for F, ks, cls in cs:
                c.count("argument vectors")
                dup = any(ks[i] and ks[j] and cls[i] == cls[j] for i in range(n) for j in range(i))
                if s.ab is not None:
                    c.expect(dup, "grouping", k, "words %s are refused although no command repeats" % (["--" if b else "." for b in ks],))
                    continue
                if dup:
                    c.bad("grouping", k, "a repeated command is accepted")
                    continue
                c.ok("grouping", k)
                if n == N and not c.thorough and len(set(cls)) < n - 1:
                    continue
                st = s.fork()
                st.facts = F.copy()
                gs = groups(ks)
                for fn in ("cmd", "raw"):
                    kk = "CommandParser::operator[](word)" if fn == "cmd" else "CommandParser::getRaw(word)"
                    for q in outcome(I, p, st, fn, loc, Q):
                        tok = q.facts.query(P.a(Sym("isToken", (Q,), BOOL)))
                        if tok is None or tok is False:
                            c.expect(q.kind == "throw" and tok is False, "lookup", kk, "names are not checked for whitespace")
                            continue
                        if q.kind != "return":
                            c.bad("lookup", kk, "lookup of a name without whitespace: %s" % (q.val,))
                            continue
                        for G, ks2, cls2 in cases(I, q.facts, n, (Q,)):
                            if ks2 != ks or cls2[:n] != cls:
                                continue
                            empty = G.query(I.same(stf(G), Q, Str("")))
                            if empty:
                                continue      # "" is not a token
                            rep = cls2[n]
                            words, found = [], False
                            if rep < n:
                                if fn == "raw":
                                    found, words = True, [W(i) for i in range(rep + 1, n)]
                                elif ks[rep]:
                                    found = True
                                    words = next([W(i) for i in range(g[1], g[1] + g[2])] for g in gs if g[0] >= 0 and cls[g[0]] == rep)
                            t = q.st.fork()
                            t.facts = G.copy()
                            observe(c, I, p, t, kk, q.val, found, words, "words %s" % "".join("-" if b else "." for b in ks))
                for q in outcome(I, p, st, "all", loc):
                    if q.kind != "return":
                        c.bad("lookup", "CommandParser::getRaw()", q.kind)
                        continue
                    observe(c, I, p, q.st, "CommandParser::getRaw()", q.val, True, [W(i) for i in range(n)], "all words")
                for i in range(-1, n + 1):
                    for q in outcome(I, p, st, "token", loc, P.c(i)):
                        if 0 <= i < n:
                            c.expect(q.kind == "return" and q.val == W(i), "lookup", "CommandParser::operator[](Integer)", "word %d is %s" % (i, q.val))
                        else:
                            c.expect(q.kind == "throw" and q.val[1] == "std::out_of_range", "lookup", "CommandParser::operator[](Integer)", "index %d of %d words: %s" % (i, n, q.kind))


def stf(F):
    s = State()
    s.facts = F
    return s


@prop("R19", 60)
def r19(c):
    """typed access to parameters"""
    c.rule("single", "asX() converts the first word (the parameter's word) completely or throws; asX(default) yields the default exactly if there is no word and still throws if the word does not convert")
    c.rule("several", "asXs() converts all words in order; asXs<N>() the first N, and throws if there are fewer")
    p = prog()
    I = interp(p)
    for m in range(0, 4):
        # one plain word, a command, its m parameters: distinct words of one character
        n = m + 2
        st = State()
        ws = [W(0), Str("--cmd")] + [W(i) for i in range(2, n)]
        for i, w in enumerate(ws):
            if i != 1:
                st.facts.assume(c_eq(models.sizeof(I, st, w), ONE, "i"))
            for j in range(i):
                st.facts.assume(I.same(st, ws[j], w), False)
        loc, sts = parsers(p, I, n, st, ws)
        for s in sts:
            if s.ab is not None:
                c.undecided("single", "CommandParser", str(s.ab))
                continue
            for q in outcome(I, p, s, "cmd", loc, Str("--cmd")):
                if q.kind != "return":
                    continue
                words = ws[2:]
                l = Loc(("s", "cmd"))
                q.st.store[l.root] = q.val
                typed(c, I, p, q.st, l, words, "Command", "first", "firstInt", "firstReal")
                several(c, I, p, q.st, l, words)
                for i in range(-1, m + 1):
                    for r in outcome(I, p, q.st, "param", l, P.c(i)):
                        if r.kind != "return":
                            continue
                        pl = Loc(("s", "par"))
                        r.st.store[pl.root] = r.val
                        typed(c, I, p, r.st, pl, [words[i]] if 0 <= i < m else [], "Parameter", "pstring", "pint", "preal")


def typed(c, I, p, st, l, words, k, fs, fi, fr):
    D = Sym("dflt")
    di, dr = P.a(Sym("dfltI", (), I64)), P.a(Sym("dfltR", (), F80))
    for fn, kind, dv in ((fs, None, D), (fi, "Integer", di), (fr, "Real", dr)):
        kk = k + "::as" + (kind or "String")
        for suffix in ("", "Or"):
            for q in outcome(I, p, st, fn + suffix, l, *([dv] if suffix else [])):
                c.count("paths")
                if not words:
                    if suffix:
                        c.expect(q.kind == "return" and q.val == dv, "single", kk + "(default)", "missing word yields %s" % (q.val if q.kind == "return" else q.kind))
                    else:
                        c.expect(q.kind == "throw", "single", kk, "missing word yields %s" % (q.val,))
                    continue
                if kind is None:
                    c.expect(q.kind == "return" and q.val == words[0], "single", kk, "yields %s" % (q.val,))
                    continue
                okc = q.facts.query(P.a(Sym("parses", (kind, words[0]), BOOL)))
                if okc is None:
                    c.bad("single", kk, "word is not converted completely: %s" % (q.val,))
                elif okc:
                    c.expect(q.kind == "return" and q.val == P.a(Sym("number", (kind, words[0]), I64 if kind == "Integer" else F80)), "single", kk,
                             "yields %s for a convertible word" % (q.val,))
                else:
                    c.expect(q.kind == "throw", "single", kk, "yields %s for a word that does not convert" % (q.val,))


def several(c, I, p, st, l, words):
    for fn, kind, N in (("strings", None, -1), ("integers", "Integer", -1), ("reals", "Real", -1), ("strings0", None, 0), ("strings1", None, 1), ("strings2", None, 2), ("integers2", "Integer", 2), ("reals3", "Real", 3)):
        kk = "Command::as%ss<%s>" % (kind or "String", N if N >= 0 else "")
        for q in outcome(I, p, st, fn, l):
            c.count("paths")
            if N > len(words):
                c.expect(q.kind == "throw", "several", kk, "%d words yield %s" % (len(words), q.kind))
                continue
            want = words if N < 0 else words[:N]
            if kind is not None:
                okc = [q.facts.query(P.a(Sym("parses", (kind, w), BOOL))) for w in want]
                if False in okc:
                    c.expect(q.kind == "throw", "several", kk, "yields a value although a word does not convert")
                    continue
                if None in okc:
                    c.bad("several", kk, "%s although not all words were converted" % q.kind)
                    continue
                want = [P.a(Sym("number", (kind, w), I64 if kind == "Integer" else F80)) for w in want]
            if q.kind != "return":
                c.bad("several", kk, "%s although all words convert" % q.kind)
                continue
            v = q.val
            if isinstance(v, Rec) and N >= 0:
                got = [v.get(str(i)) for i in range(N)] + ([0] if v.get(str(N)) is not None else [])
            else:
                m = models.sizeof(I, q.st, v).const()
                got = None if m is None else [I.elem(q.st, v, P.c(i)) for i in range(m)]
            got = None if got is None else [I.read(q.st, g) if isinstance(g, Loc) else g for g in got]
            c.expect(None if got is None else got == want, "several", kk, "yields %s, specified %s" % (got, want))
