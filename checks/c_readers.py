"""Token readers: bounds, patterns, expectations, grammar, finality, whitespace, constraints."""
from check import prop
from front import *
from interp import *
from envs import *
import models
import readers as RD
import regexdfa as R

LL, LD, RX, CO, CH = "long", "long double", "std::regex", "Constraint", "char"
SINGLE = [
    ("string", ()), ("string", (LL, LL)), ("string", (RX,)), ("string", (RX, LL, LL)),
    ("integer", ()), ("integer", (LL, LL)),
    ("real", ()), ("real", (LD, LD)), ("realStrict", (LD, LD, LL, LL)),
    ("expectString", ("std::string_view",)), ("expectInt", (LL,)), ("expectReal", (LD,)),
]
LOGGED = [("string", (LL, LL, CO)), ("string", (RX, LL, LL, CO)), ("integer", (LL, LL, CO)), ("real", (LD, LD, CO)),
          ("realStrict", (LD, LD, LL, LL, CO))]
PLURAL = [
    ("strings", "string", ()), ("strings", "string", (LL, LL)), ("strings", "string", (LL, LL, CO)), ("strings", "string", (RX,)),
    ("strings", "string", (RX, LL, LL)), ("strings", "string", (RX, LL, LL, CO)),
    ("integers", "integer", ()), ("integers", "integer", (LL, LL)), ("integers", "integer", (LL, LL, CO)),
    ("reals", "real", ()), ("reals", "real", (LD, LD)), ("reals", "real", (LD, LD, CO)),
    ("realsStrict", "realStrict", (LD, LD, LL, LL)), ("realsStrict", "realStrict", (LD, LD, LL, LL, CO)),
]
CONFIGS = [(), ("-DDOUBLE_FALLBACK",)]
_rd = {}


def readers(flags):
    if flags not in _rd:
        _rd[flags] = RD.Readers(flags)
    return _rd[flags]


def con(name, sig, flags=()):
    return f"InputStream::{name}({', '.join(sig)})" + (" " + " ".join(flags) if flags else "")


def results(c, which, stages, kinds=("return", "exit", "throw")):
    """judge every path of the given readers; a failing obligation belongs to the check whose stages name it"""
    for flags in CONFIGS:
        rd = readers(flags)
        for name, sig in which:
            f = rd.method(name, sig)
            k = con(name, sig, flags)
            c.count("readers")
            for q in rd.run(f):
                if q.kind not in kinds:
                    continue
                c.count("paths")
                v, stage, why = rd.judge(name, sig, q)
                rule = "accept" if q.kind == "return" else "reject" if q.kind == "exit" else "throw"
                if v == "infeasible":
                    c.count("infeasible paths")
                elif v == "ok":
                    c.ok(rule, k)
                elif v == "undecided":
                    c.undecided(rule, k, why)
                elif stage in stages:
                    c.bad(rule + ":" + stage, k, why)
                else:
                    c.count("findings left to other rules")


def rules(c):
    c.rule("accept", "every path that hands a value to the caller entails the acceptance condition of the reader and yields the specified value")
    c.rule("reject", "every rejecting path contradicts every acceptance alternative of the reader")
    c.assume("std::from_chars, std::stold, std::regex_match, std::string and std::istream behave as the C++ standard specifies (lib/models.py)")


@prop("R01", 300)
def r01(c):
    """bounded readers are exact on half-open ranges"""
    rules(c)
    results(c, [x for x in SINGLE if len(x[1]) >= 2], ("bounds", "decimals", "value", "reject"))


@prop("R02", 150)
def r02(c):
    """pattern and expectation readers"""
    rules(c)
    results(c, [x for x in SINGLE if x[0].startswith("expect") or RX in x[1]], ("pattern", "expected", "reject", "value"))


@prop("R03", 800)
def r03(c):
    """a rejection ends the program with the verdict of the stream; nothing is returned after it"""
    c.rule("final", "a path that reports a rejection never returns to the caller and ends the process with the exit code of the verdict the stream was built with; "
                    "a path that returns has reported nothing")
    results(c, SINGLE + LOGGED, ("final",))
    for flags in CONFIGS:
        rd = readers(flags)
        for n in ("eof", "noteof", "space", "newline"):
            for q in rd.run(rd.method(n, ())):
                c.count("paths")
                final(c, rd, con(n, (), flags), q)
    # the verdict path itself: printing a verdict to any output stream ends the process with its code
    rd = readers(())
    fs = [f for f in rd.p.find("InputStream::fail", all=True)] if any(True for _ in rd.p.by_q.get("InputStream::fail", [])) else []
    for f in fs:
        for q in rd.run(f):
            c.expect(q.kind == "exit" and q.val[1] == rd.env["code"], "final", "InputStream::fail", "outcome %s %s" % (q.kind, q.val if q.kind != "return" else ""))


def final(c, rd, k, q):
    if q.kind == "exit":
        c.expect(q.val[1] == rd.env["code"], "final", k, "rejects with %s" % (q.val[1],))
    elif q.kind == "return":
        c.expect(not any(e[0] in ("out", "terminal") for e in q.ev), "final", k, "returns after reporting a rejection")
    else:
        c.undecided("final", k, str(q.kind))


def chset(F, pos):
    return next((v for k, v in F.sets.items() if k.op == "ch" and k.args == (pos,)), None)


@prop("R04", 60)
def r04(c):
    """whitespace and end-of-input handling"""
    rules(c)
    c.rule("token start", "in space sensitive mode a token starts exactly at the read position (printable next character) and nothing is skipped; "
                          "otherwise leading whitespace is skipped; exactly one token is consumed")
    c.rule("separator", "in space sensitive mode exactly the one expected character is consumed, anything else is rejected; otherwise nothing is required")
    c.rule("end of input", "acceptance iff the next (in the insensitive mode: next non-whitespace) character is / is not the end of input")
    ALLCH = frozenset(range(-1, 256))
    for flags in CONFIGS[:1]:
        rd = readers(flags)
        p0 = Sym("pos", (Sym("stream", ("in",)),))
        ws = Sym("ws", (p0,))
        results(c, [("string", ())], ("base", "value", "final"))
        results(c, [x for x in SINGLE if x[1]], ("base",))
        for q in rd.run(rd.method("string", ())):
            if q.kind == "return":
                pos, _ = rd.start(q.facts)
                cur = q.st.store[rd.env["stream"].root].get("pos")
                c.expect(None if pos is None else cur == Sym("after", (pos,)), "token start", con("string", ()), "after reading the stream is at %s" % (cur,))
        spec = {"eof": ((frozenset((-1,)), "stay"),) * 2, "noteof": ((ALLCH - {-1}, "stay"),) * 2,
                "space": ((ALLCH, "any"), (frozenset((32,)), "next")), "newline": ((ALLCH, "any"), (frozenset((10,)), "next"))}
        for n, modes in spec.items():
            k = con(n, ())
            rule = "separator" if n in ("space", "newline") else "end of input"
            c.count("readers")
            for q in rd.run(rd.method(n, ())):
                c.count("paths")
                ss = rd.flagval(q.facts, "space")
                if ss is None:
                    c.undecided(rule, k, "mode not determined")
                    continue
                acc, move = modes[ss]
                cur = q.st.store[rd.env["stream"].root].get("pos")
                start = p0 if ss else ws
                ch = chset(q.facts, start)
                if q.kind == "return":
                    if move == "any":
                        c.expect(cur in (p0, ws), rule, k, "consumes input although whitespace is not significant (now at %s)" % (cur,))
                        continue
                    okc = ch is not None and ch <= acc
                    okp = cur in ((start,) if move == "stay" else (Sym("next", (start,)),))
                    c.expect(okc, rule, k, "accepts without establishing the next character (may be %s)" % (sorted(ch - acc)[:4] if ch else "anything",))
                    c.expect(okp, rule, k, "leaves the stream at %s" % (cur,))
                elif q.kind == "exit":
                    if move == "any":
                        c.bad(rule, k, "may reject although whitespace is not significant")
                        continue
                    c.expect(ch is not None and not (ch & acc), rule, k, "rejects although the next character may be %s" % (sorted(ch & acc)[:4] if ch else "anything",))
                else:
                    c.undecided(rule, k, q.kind)


LOWER = tuple(x + 32 if 65 <= x <= 90 else x for x in range(-128, 128))
UPPER = tuple(x - 32 if 97 <= x <= 122 else x for x in range(-128, 128))


def foldch(x, tab):
    return tab[x + 128]


@prop("R05", 40)
def r05(c):
    """case folding of tokens and comparison of strings"""
    c.rule("fold", "case sensitive: the token itself; otherwise the token with every ASCII letter in one case and every other byte unchanged")
    c.rule("char map", "toLower / toUpper / toDefaultCase over all 256 byte values")
    c.rule("equal", "strings compare equal iff they have the same length and equal (folded) characters; a witness position is the first difference")
    rd = readers(())
    for q in rd.run(rd.method("string", ())):
        if q.kind != "return":
            continue
        t = rd.token_of(q)
        cs = rd.flagval(q.facts, "case")
        c.count("paths")
        if len(t) != 1 or cs is None:
            c.undecided("fold", con("string", ()), "path without a single token or known mode")
            continue
        tok = Sym("tok", (t[0],))
        if cs == 1:
            c.expect(q.val == tok, "fold", con("string", ()), "case sensitive reader yields %s" % (q.val,))
        else:
            tab = q.val.args[0].args if isinstance(q.val, Sym) and q.val.op == "map" and q.val.args[1] == tok else None
            if tab is None:
                c.expect(False if q.val == tok else None, "fold", con("string", ()), "case insensitive reader yields %s" % (q.val,))
            else:
                got = tuple(tab)
                diff = [x for x in range(256) if got[x] != LOWER[x]]
                c.expect(got in (LOWER, UPPER), "fold", con("string", ()),
                         "byte %s is folded to %s" % ((diff[0] - 128, got[diff[0]]) if diff else ("", "")))
    for nm, tab in (("toLower", (LOWER,)), ("toUpper", (UPPER,)), ("toDefaultCase", (LOWER, UPPER))):
        for f in rd.p.find(nm, all=True):
            if rd.p.psig(f) != ("char",):
                continue
            got = []
            for x in range(-128, 128):
                r = {q.val for q in rd.I.run(f, None, [P.c(x)], State()) if q.kind == "return"}
                got.append(next(iter(r)).const() if len(r) == 1 and isinstance(next(iter(r)), P) else None)
            if None in got:
                c.undecided("char map", nm + "(char)", "not a constant")
                continue
            bad = [(x, got[x + 128]) for x in range(-128, 128) if all(got[x + 128] != t[x + 128] for t in tab)]
            c.count("byte values", 256)
            c.expect(not bad, "char map", nm + "(char)", "maps byte %s to %s" % (bad[0] if bad else ("", "")))
    # string comparison, every pair of lengths up to the bound
    N = 3 if c.thorough else 2
    c.note(f"string comparison: all pairs of strings up to length {N}, all characters")
    I = Interp(rd.p, widen=True)
    I.keep = 4096
    for f in rd.p.find("ValidateBase::stringEqual", all=True):
        for n in range(N + 1):
            for m in range(N + 1):
                for cs in (0, 1):
                    st = State()
                    a, b = Sym("cmpA"), Sym("cmpB")
                    na, nb = models.sizeof(I, st, a), models.sizeof(I, st, b)
                    st.facts.assume(c_eq(na, P.c(n), "i"))
                    st.facts.assume(c_eq(nb, P.c(m), "i"))
                    k = "ValidateBase::stringEqual lengths %d,%d %s" % (n, m, "sensitive" if cs else "insensitive")
                    for q in I.run(f, None, [a, b, P.c(cs)], st):
                        c.count("paths")
                        if q.kind != "return" or not isinstance(q.val, Rec):
                            c.undecided("equal", k, q.kind)
                            continue
                        judge_equal(c, I, k, q, a, b, n, m, cs)


def judge_equal(c, I, k, q, a, b, n, m, cs):
    F = q.facts
    vals = [v for v in q.val.fields.values()]
    eq = next((v for v in vals if isinstance(v, P)), None)
    why = next((v for v in vals if isinstance(v, Opt)), None)
    eq = F.query(eq) if eq is not None else None
    if eq is None:
        c.undecided("equal", k, "result not decided on the path")
        return

    def rel(i):
        """True: known equal, False: known different, None: both possible"""
        x, y = Sym("elem", (a, P.c(i)), CHAR), Sym("elem", (b, P.c(i)), CHAR)
        sx, sy = F.sets.get(x, FULLCHAR), F.sets.get(y, FULLCHAR)
        conds = [cc for cc in F.conds if {x, y} & deep_atoms(cc[0])]
        if not conds and cs:
            q_ = F.query(c_eq(P.a(x), P.a(y), "i"))
            if q_ is not None:
                return q_
        res = set()
        for u in sx:
            for v in sy:
                try:
                    if all(bool(evals(cc, {x: u, y: v})) == t for cc, t in conds):
                        res.add(u == v if cs else LOWER[u + 128] == LOWER[v + 128])
                except CantEval:
                    return None
                if len(res) == 2:
                    return None
        return next(iter(res)) if res else None
    rels = [rel(i) for i in range(min(n, m))]
    if eq:
        if n != m:
            c.bad("equal", k, "strings of different length compare equal")
        else:
            bad = [i for i, r in enumerate(rels) if r is not True]
            c.expect(not bad, "equal", k, "equal is reported although the characters at %s may differ" % bad)
    else:
        first = next((i for i, r in enumerate(rels) if r is False), None)
        if first is None and n == m:
            c.bad("equal", k, "a difference is reported without two different characters")
            return
        c.ok("equal", k)
        want = first if first is not None else min(n, m)
        if isinstance(why, Opt) and F.query(why.has) is True and isinstance(why.val, P):
            c.expect(F.entails(c_eq(why.val, P.c(want), "i")) and all(r is True for r in rels[:want]), "equal", k, "first difference reported at %s, is at %d" % (why.val, want))


@prop("R06", 100)
def r06(c):
    """reading several values = reading them one by one with the separator in between"""
    c.rule("sequence", "for a count n the reader performs n single reads with the given arguments in order, the separator check between consecutive ones only, "
                       "and returns the values in order")
    c.rule("separator argument", "a separator other than blank or newline is refused before anything is read")
    N = 5 if c.thorough else 4
    c.note(f"counts 0..{N - 1}, arbitrary arguments and values")
    rd = RD.Readers(())
    I = rd.I
    I.keep = 1

    def single(nm):
        def h(I, st, f, obj, args, e, fr):
            st.tags["rd"] = k = st.tags.get("rd", 0) + 1
            a = tuple(x if isinstance(x, Loc) and x.root[0] == "s" else models.pval(I, st, I.rv(st, x)) for x in args)
            st.ev.append(("read", nm, a))
            ty = I.nty(f["ret"])
            s = Sym("val", (k,), ty)
            return [(st, P.a(s) if ty is not None else s)]
        return h

    def sep(ch):
        def h(I, st, f, obj, args, e, fr):
            st.ev.append(("sep", ch))
            return [(st, VOID)]
        return h
    for nm in ("string", "integer", "real", "realStrict"):
        I.hooks["InputStream::" + nm] = single(nm)
    I.hooks["InputStream::space"] = sep(" ")
    I.hooks["InputStream::newline"] = sep("\n")
    for name, one, sig in PLURAL:
        f = rd.method(name, sig + (LL, CH))
        k = con(name, sig + (LL, CH))
        c.count("readers")
        for ch in (32, 10, 44):
            for n in range(N):
                st = rd.sts[0].fork()
                args = rd.args(f, st, {len(sig): P.c(n), len(sig) + 1: P.c(ch)})
                want = tuple(args[:len(sig)])
                for q in rd.run(f, st=st, args=args):
                    c.count("paths")
                    ev = [e for e in q.ev if e[0] in ("read", "sep", "token", "get", "ws", "out")]
                    if ch == 44:
                        if q.kind == "throw":
                            c.expect(not ev, "separator argument", k, "input is read before the separator is refused")
                        else:
                            c.bad("separator argument", k, "unknown separator accepted (%s)" % q.kind)
                        continue
                    if q.kind != "return":
                        c.expect(None if q.kind == "cut" else False, "sequence", k, "count %d: %s" % (n, q.kind))
                        continue
                    exp = []
                    for i in range(n):
                        exp.append(("read", one))
                        if i + 1 < n:
                            exp.append(("sep", chr(ch)))
                    got = [e[:2] for e in ev]
                    c.expect(got == exp, "sequence", k, "count %d: performs %s" % (n, got))
                    c.expect(all(e[2] == want for e in ev if e[0] == "read"), "sequence", k, "count %d: single reader called with %s" % (n, [e[2] for e in ev if e[0] == "read"]))
                    v = q.val
                    m = models.sizeof(I, q.st, v)
                    okv = q.facts.entails(c_eq(m, P.c(n), "i"))
                    els = [I.elem(q.st, v, P.c(i)) for i in range(n)] if okv else []
                    okv = okv and all((x.atom() if isinstance(x, P) else x) is not None and (x.atom() if isinstance(x, P) else x).args == (i + 1,) and
                                      (x.atom() if isinstance(x, P) else x).op == "val" for i, x in enumerate(els))
                    c.expect(bool(okv), "sequence", k, "count %d: returns %s" % (n, els))


@prop("R07", 150)
def r07(c):
    """readers with a constraint behave like those without and report the accepted value once"""
    rules(c)
    c.rule("accept:log", "an accepting path reports exactly once, with the bounds given to the reader and the value it returns")
    results(c, LOGGED, ("log", "bounds", "decimals", "value", "reject", "pattern"))


@prop("R10", 250)
def r10(c):
    """number grammars and complete parsing"""
    rules(c)
    c.rule("accept:grammar", "the language of tokens on an accepting path is contained in the documented number grammar (DFA inclusion)")
    c.rule("accept:parse", "the whole token takes part in the conversion and the conversion succeeded")
    NUM = [x for x in SINGLE if x[0] in ("integer", "real", "realStrict", "expectInt", "expectReal")]
    results(c, NUM, ("grammar", "parse", "value"))
    results(c, [("integer", ()), ("real", ())], ("reject",))
    # the conversion predicates on strings
    for flags in CONFIGS:
        rd = readers(flags)
        for nm, kind in (("isInteger", "integer"), ("isReal", "real")):
            f = rd.p.find(nm, nparams=1)
            k = nm + "(string)" + (" " + " ".join(flags) if flags else "")
            V = Sym("strarg0")
            st = State()
            l = Loc(("s", "str"))
            st.store[l.root] = V
            gram = R.compile(RD.LANG[kind])
            for q in rd.I.run(f, None, [l], st):
                c.count("paths")
                if q.kind != "return" or not isinstance(q.val, Rec):
                    c.undecided("accept", k, q.kind)
                    continue
                val = next((v for v in q.val.fields.values() if isinstance(v, P)), None)
                why = next((v for v in q.val.fields.values() if isinstance(v, Opt)), None)
                b = q.facts.query(val) if val is not None else None
                if b is None:
                    c.undecided("accept", k, "result unknown")
                    continue
                pos, neg, _ = rd.lang(q.facts, V)
                if (pos or neg) and R.witness(pos, neg) is None:
                    continue
                alts = rd.parse_alts(V, kind, "long" if kind == "integer" else "long double")
                if b:
                    w = R.witness(pos, neg + [gram])
                    if w is not None:
                        c.bad("accept:grammar", k, "accepts %r" % w)
                        continue
                    good = False
                    for g, conds, v in alts:
                        if any(q.facts.query(x) is False for x in g):
                            continue
                        if all(q.facts.entails(x) for x in conds) and isinstance(why, Opt) and q.facts.query(why.has) is True and rd.same_value(q.facts, why.val, v):
                            good = True
                    c.expect(good, "accept:parse", k, "accepts without a complete conversion, value %s" % (why.val if isinstance(why, Opt) else why,))
                else:
                    if R.witness(pos + [gram], neg) is None:
                        c.ok("reject", k)
                        continue
                    good = True
                    for g, conds, v in alts:
                        if any(q.facts.query(x) is False for x in g):
                            continue
                        fx = q.facts.copy()
                        if all(fx.assume(x) for x in list(g) + conds):
                            p2, n2, _ = rd.lang(fx, V)
                            if R.witness(p2 + [gram], n2) is not None:
                                good = False
                    c.expect(good, "reject", k, "rejects a well-formed number")
