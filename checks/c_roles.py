"""Initialisation of the roles: settings from the command line, streams of every role, init protocol."""
from itertools import product
from check import prop
from front import *
from interp import *
from envs import *
import models
from c_args import ROOTS

_p = {}
KEYS = ["float_tolerance", "float_absolute_tolerance", "float_relative_tolerance", "space_change_sensitive", "case_sensitive", "--seed", "--constraints_file"]
VALUED = {"float_tolerance", "float_absolute_tolerance", "float_relative_tolerance", "--seed", "--constraints_file"}
# role: (sensitive by default, {stream: spec}, {output: spec}, constraints file)
# input stream: (source, spaces significant, verdict); source: number of the argument or "stdin"
ROLES = {
    "InputValidator": (True, {"testIn": ("stdin", None, "WA")}, {"juryOut": "cout"}, True),
    "AnswerValidator": (True, {"testIn": (1, 0, "FAIL"), "ans": ("stdin", None, "WA")}, {"juryOut": "cout"}, True),
    "OutputValidator": (False, {"testIn": (1, 0, "FAIL"), "juryAns": (2, 0, "FAIL"), "teamAns": ("stdin", None, "WA")},
                        {"juryOut": (3, "judgemessage.txt"), "teamOut": (3, "teammessage.txt")}, True),
    "Interactor": (False, {"testIn": (1, 0, "FAIL"), "fromTeam": ("stdin", None, "WA")},
                   {"juryOut": (3, "judgemessage.txt"), "teamOut": (3, "teammessage.txt"), "toTeam": "cout"}, False),
    "Generator": (False, {}, {"juryOut": "cerr", "testOut": "cout"}, False),
}
CODES = {"AC": 42, "WA": 43, "FAIL": 1, "PE": 43}


def prog():
    if not _p:
        _p[0] = load("roles.cpp", [], "c++17", roots=ROOTS)
    return _p[0]


def interp(p):
    I = Interp(p, widen=True)
    I.keep = 64

    def h_parse(I, st, f, obj, args, e, fr):
        s = models.pval(I, st, I.rv(st, args[0]))
        ti = p.strip_ref(f["ps"][1]["t"])
        if "string" in simp(p.ts(ti)):
            I.write(st, args[1], s)
            return [(st, ONE)]
        ty = I.nty(ti)
        kind = "Integer" if ty is I64 else "Real"
        out = []
        for x, ok in I.branch(st, P.a(Sym("parses", (kind, s), BOOL))):
            I.write(x, args[1], P.a(Sym("number" if ok else "junk", (kind, s), ty)))
            out.append((x, P.c(ok)))
        return out

    def h_seed(I, st, f, obj, args, e, fr):
        st.ev.append(("seed",) + tuple(I.rv(st, a) for a in args))
        return [(st, VOID)]
    for q, h in (("details::parse", h_parse), ("Random::seed", h_seed)):
        if not p.by_q.get(q):
            raise AnalysisBroken("anchor " + q)
        I.hooks[q] = h
    return I


def canon(I, st, v, depth=0):
    """value with heap objects replaced by their content and identities of opened files dropped"""
    if isinstance(v, P):
        return v
    if isinstance(v, Loc):
        if v.root[0] in ("g", "s"):
            return v
        return ("->", canon(I, st, I.read(st, v), depth + 1)) if depth < 6 else ("->",)
    if isinstance(v, Rec):
        if v.cls == "istream":
            i = v.get("id")
            return ("istream", canon(I, st, i.args[:2] if i.args and i.args[0] in ("ifstream",) else i, depth + 1), canon(I, st, v.get("skip"), depth + 1))
        return ("rec", tuple((k, canon(I, st, x, depth + 1)) for k, x in v.fitems))
    if isinstance(v, Sym):
        if v.op in ("ofstream", "ifstream"):
            return (v.op,) + tuple(canon(I, st, x, depth + 1) for x in v.args[:2])
        return v
    if isinstance(v, Opt):
        return ("opt", v.has, canon(I, st, v.val, depth + 1))
    if isinstance(v, tuple):
        return tuple(canon(I, st, x, depth + 1) for x in v)
    return v


A0 = {"abs": P.a(Sym("abs0", (), F80)), "rel": P.a(Sym("rel0", (), F80)), "space": P.a(Sym("space0", (), BOOL)), "case": P.a(Sym("case0", (), BOOL))}
SET = {"abs": "setAbs", "rel": "setRel", "space": "setSpace", "case": "setCase"}
GET = {"abs": "absTol", "rel": "relTol", "space": "space", "case": "caseS"}


def fresh_state(I, p, st=None):
    """settings changed by the user before init to arbitrary values"""
    sts = [st or State()]
    for k, fn in SET.items():
        nxt = []
        for s in sts:
            for q in I.run(p.find("drv::" + fn), None, [A0[k]], s):
                if q.kind == "return":
                    nxt.append(q.st)
        sts = nxt
    if not sts:
        raise AnalysisBroken("settings cannot be changed before init")
    return sts


def words(combo, rev):
    """argument vector for a set of flags; the words that are not flags are arbitrary"""
    ws = [Sym("word", (i,)) for i in range(4)]
    items = [(k, Sym("value", (k,))) if k in VALUED else (k,) for k in KEYS if k in combo]
    # '--' groups last: they swallow the words that follow them
    items.sort(key=lambda x: x[0].startswith("--"))
    if rev:
        items = [x for x in reversed(items) if not x[0].startswith("--")] + [x for x in reversed(items) if x[0].startswith("--")]
    for x in items:
        ws.append(Str(x[0]))
        ws.extend(x[1:])
    return ws


def argv(I, st, ws):
    syms = [w for w in ws if isinstance(w, Sym)]
    for i, w in enumerate(syms):
        st.facts.assume(c_eq(models.sizeof(I, st, w), ONE, "i"))
        for x in syms[:i]:
            st.facts.assume(I.same(st, x, w), False)
    av = Loc(("s", "argv"))
    st.store[av.root] = Vec(P.c(len(ws)), ("fill", NULL), tuple((P.c(i), w) for i, w in enumerate(ws)))
    return [P.c(len(ws)), Iter(av, ZERO)]


def num(kind, key):
    return P.a(Sym("number", (kind, Sym("value", (key,))), I64 if kind == "Integer" else F80))


def expected(role, combo):
    sens = ROLES[role][0]
    e = dict(A0)
    if sens:
        e["space"] = e["case"] = ONE
    if "float_tolerance" in combo:
        e["abs"] = e["rel"] = num("Real", "float_tolerance")
    if "float_absolute_tolerance" in combo:
        e["abs"] = num("Real", "float_absolute_tolerance")
    if "float_relative_tolerance" in combo:
        e["rel"] = num("Real", "float_relative_tolerance")
    if "space_change_sensitive" in combo:
        e["space"] = ONE
    if "case_sensitive" in combo:
        e["case"] = ONE
    return e


def read_setting(I, p, st, k):
    r = [q for q in I.run(p.find("drv::" + GET[k]), None, [], st.fork()) if q.kind == "return"]
    return r[0].val if len(r) == 1 else None


def combos(c, keys):
    full = c.thorough
    for bits in product((0, 1), repeat=len(keys)):
        s = frozenset(k for k, b in zip(keys, bits) if b)
        yield s


def runs(c, I, p, role, combo, rev=False):
    f = p.find(role + "::init")
    for st in fresh_state(I, p):
        ws = words(combo, rev)
        a = argv(I, st, ws)
        for q in I.run(f, None, a, st):
            c.count("paths")
            yield q


def converts(q, combo):
    """True: every numeric value converts; False: one does not; None: unknown"""
    r = True
    for k in combo:
        if k in VALUED and k != "--constraints_file":
            kind = "Integer" if k == "--seed" else "Real"
            b = q.facts.query(P.a(Sym("parses", (kind, Sym("value", (k,))), BOOL)))
            if b is False:
                return False
            if b is None:
                r = None
    return r


@prop("R17", 300)
def r17(c):
    """command line flags to settings"""
    c.rule("settings", "after init the tolerances and sensitivity modes are exactly what the flags given say, otherwise what the program configured before (validators of input and answers: sensitive); "
                       "the specific tolerance flags win over the common one, in every order")
    c.rule("seed", "the random generator is seeded exactly once with the given seed if there is one, and not otherwise")
    c.rule("malformed", "init fails if a given number does not convert")
    p = prog()
    I = interp(p)
    keys = KEYS[:6]
    for role in ROLES:
        k = role + "::init"
        for combo in combos(c, keys):
            for rev in ((False, True) if len(combo) > 1 and (c.thorough or role == "OutputValidator") else (False,)):
                want = expected(role, combo)
                for q in runs(c, I, p, role, combo, rev):
                    cv = converts(q, combo)
                    if cv is False:
                        c.expect(q.kind == "throw", "malformed", k, "a number that does not convert is accepted (%s)" % sorted(combo))
                        continue
                    if q.kind != "return":
                        if q.kind == "throw" and q.val[1] == "std::runtime_error":
                            c.count("paths on which a file cannot be opened")
                        else:
                            c.bad("settings", k, "init fails for valid arguments %s: %s" % (sorted(combo), q.val))
                        continue
                    if cv is None:
                        c.bad("settings", k, "a number given on the command line is not converted (%s)" % sorted(combo))
                        continue
                    for s in A0:
                        v = read_setting(I, p, q.st, s)
                        okv = v == want[s] or (isinstance(v, P) and q.facts.entails(c_eq(v, want[s], "i")))
                        c.expect(okv, "settings", k, "flags %s: setting %s is %s, specified %s" % (sorted(combo), s, v, want[s]))
                    seeds = [e[1:] for e in q.ev if e[0] == "seed"]
                    if "--seed" in combo:
                        c.expect(len(seeds) == 1 and I_eq(seeds[0][0], num("Integer", "--seed")), "seed", k, "seeded with %s" % (seeds,))
                    else:
                        c.expect(not seeds, "seed", k, "seeded with %s although no seed was given" % (seeds,))


def I_eq(a, b):
    """equal up to a sign conversion of the same width"""
    if a == b:
        return True
    at = a.atom() if isinstance(a, P) else None
    return at is not None and at.op in ("wrap", "cast", "u64", "mod2") and b.atom() in at.args or (at is not None and at.args and b in at.args)


@prop("R15", 100)
def r15(c):
    """streams of every role"""
    c.rule("input stream", "every input stream of the role reads the specified source with the specified modes, the configured tolerances and verdict, and reports to the judge message stream")
    c.rule("output stream", "every output stream of the role writes to the specified sink; nothing else is opened")
    c.rule("constraints", "the constraints log is connected to the file given with --constraints_file if there is one (roles with a constraint log), else to nothing")
    p = prog()
    I = interp(p)
    verd = {}
    for v in CODES:
        r = [q for q in I.run(p.find("drv::v" + v), None, [], State()) if q.kind == "return"]
        verd[v] = r[0].val
    jury = Loc(("g", p.glob("ValidateBase::juryOut")["id"]))
    for role, (sens, ins, outs, cons) in ROLES.items():
        for combo in (frozenset(), frozenset(KEYS[:5]), frozenset(("--constraints_file",)), frozenset(("float_absolute_tolerance", "case_sensitive", "--constraints_file")), frozenset(("float_tolerance", "space_change_sensitive"))):
            want = expected(role, combo)
            for q in runs(c, I, p, role, combo):
                if q.kind != "return":
                    continue
                okinit = [x for x in I.run(p.find("drv::initialized"), None, [], q.st.fork())]
                c.expect(len(okinit) == 1 and okinit[0].kind == "return" and okinit[0].facts.query(okinit[0].val) is True, "input stream", role + "::init", "not marked as initialised afterwards")
                opened = [e for e in q.ev if e[0] == "open"]
                mine = q.st
                nopen = 0
                for name, (src, sp, vd) in ins.items():
                    k = role + "::" + name
                    g = Loc(("g", p.glob(k)["id"]))
                    got = canon(I, mine, I.read(mine, g))
                    s2 = mine.fork()
                    modes = [want["space"] if sp is None else P.c(sp), want["case"], verd[vd], want["abs"], want["rel"]]
                    fn, a = ("inStd", modes) if src == "stdin" else ("inFile", [Sym("word", (src,))] + modes)
                    nopen += src != "stdin"
                    ref = [x for x in I.run(p.find("drv::" + fn), None, a, s2) if x.kind == "return"]
                    exp = [canon(I, x.st, x.val) for x in ref]
                    c.expect(got in exp, "input stream", k, "flags %s: is %s, specified %s" % (sorted(combo), diff(got, exp[0] if exp else None), ""))
                for name, spec in outs.items():
                    k = ("ValidateBase::" if name == "juryOut" else role + "::") + name
                    g = Loc(("g", p.glob(k)["id"]))
                    got = canon(I, mine, I.read(mine, g))
                    s2 = mine.fork()
                    if isinstance(spec, tuple):
                        nopen += 1
                        mode = [e for e in opened if e[1] == "ofstream" and Str(spec[1]) in models_flat(e[2])]
                        okm = len(mode) == 1
                        c.expect(okm, "output stream", k, "the file %s is opened %d times" % (spec[1], len(mode)))
                        if not okm:
                            continue
                        m = mode[0][3]
                        mc = m.const() if isinstance(m, P) else None
                        c.expect(None if mc is None else bool(mc & 16) and not mc & 8, "output stream", k, "open mode %s" % (m,))
                        ref = I.run(p.find("drv::outFile"), None, [Sym("word", (spec[0],)), Str(spec[1]), m], s2)
                    else:
                        ref = I.run(p.find("drv::outCout" if spec == "cout" else "drv::outCerr"), None, [], s2)
                    exp = [canon(I, x.st, x.val) for x in ref if x.kind == "return"]
                    c.expect(got in exp, "output stream", k, "is %s" % (diff(got, exp[0] if exp else None),))
                c.expect(len(opened) == nopen, "output stream", role + "::init", "opens %s" % ([(e[1], e[2]) for e in opened],))
                g = Loc(("g", p.glob("ConstraintsBase::constraint")["id"]))
                got = canon(I, mine, I.read(mine, g))
                if cons and "--constraints_file" in combo:
                    ref = I.run(p.find("drv::logger"), None, [Sym("value", ("--constraints_file",))], mine.fork())
                else:
                    ref = I.run(p.find("drv::nologger"), None, [], mine.fork())
                exp = [canon(I, x.st, x.val) for x in ref if x.kind == "return"]
                if isinstance(I.read(mine, g), Sym) and not (cons and "--constraints_file" in combo):
                    c.ok("constraints", role + "::init")       # untouched
                else:
                    c.expect(got in exp, "constraints", role + "::init", "is %s" % (diff(got, exp[0] if exp else None),))


def models_flat(v):
    if isinstance(v, Sym):
        r = [v]
        for x in v.args:
            r += models_flat(x)
        return r
    return [v]


def diff(a, b):
    """the part in which two canonical values differ"""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return diff(x, y)
    return "%s instead of %s" % (a, b)
