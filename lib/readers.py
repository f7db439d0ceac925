"""Specification and decision procedure for the token readers of InputStream.

For every reader the analysis computes all path summaries and compares each with the reader's
acceptance condition: a path that hands a value to the caller must entail the condition and
yield the specified value; a path that rejects must contradict it."""
from front import *
from interp import *
from envs import *
import regexdfa as R

LANG = {
    "integer": "0|-?[1-9][0-9]*",
    "real": "[+-]?(([0-9]*\\.[0-9]+)|([0-9]+\\.)|([0-9]+))([eE][+-]?[0-9]+)?",
    "strict": "-?(0|[1-9][0-9]*)(\\.[0-9]*)?",
}
STAGE = ["base", "grammar", "parse", "pattern", "decimals", "bounds", "expected"]


def lang(I, facts, V):
    """(positive DFAs, negative DFAs, symbolic pattern atoms) known of token V"""
    pos, neg, symb = [], [], {}
    for a, t in facts.at.items():
        if a.op == "regex_match" and a.args[0] == V:
            r = a.args[1]
            if isinstance(r, Sym) and r.op == "regex" and isinstance(r.args[0], Str):
                fl = r.args[1]
                fl = fl.const() if isinstance(fl, P) else fl if isinstance(fl, int) else 0
                try:
                    d = R.compile(r.args[0].s, fl or 0)
                except (R.Unsupported, ValueError, IndexError):
                    symb[r] = t
                    continue
                (pos if t else neg).append(d)
            else:
                symb[r] = t
        elif a.op == "same" and len(a.args) == 2:
            x, y = a.args
            if isinstance(y, Str):
                x, y = y, x
            if isinstance(x, Str) and isinstance(y, Sym) and y.op == "substr" and y.args[0] == V:
                k, m = (z.const() if isinstance(z, P) else z for z in y.args[1:3])
                if k is not None and m == len(x.s) and len(x.s) > 0:
                    d = R.literal_at(k, x.s)
                    (pos if t else neg).append(d)
            elif isinstance(x, Str) and y == V:
                (pos if t else neg).append(R.literal(x.s))
    lo, hi = facts.bounds(models.sizeof(I, State(), V))
    lo = int(min(max(lo, 0), 8)) if lo != -INF else 0
    if lo > 0 or hi <= 16:
        pos.append(R.sizes(lo, int(hi) if hi <= 16 else None))
    for k in range(4):
        c = Sym("elem", (V, P.c(k)), CHAR)
        cs = facts.sets.get(c)
        if cs is None:
            lo, hi = facts.abounds(c)
            if (lo, hi) != (-128, 127):
                cs = frozenset(range(int(lo), int(hi) + 1))
        if cs is not None and len(cs) < 256:
            # outside the string the element read is the terminator or absent
            d = R.charat(k, frozenset(x % 256 for x in cs), k > 0 and 0 in cs)
            pos.append(d)
    return pos, neg, symb


class Alt:
    """one way to accept: guard (when this alternative applies), labelled conditions, value"""

    def __init__(self, guard, conds, val):
        self.guard, self.conds, self.val = guard, conds, val


class Readers:
    def __init__(self, flags=()):
        self.flags = tuple(flags)
        self.p = load("validate.cpp", list(flags), std="c++17")
        self.I = Interp(self.p, widen=True)
        self.I.keep = 24
        self.fallback = "-DDOUBLE_FALLBACK" in flags
        self.I.hooks["details::floatEqual"] = self.h_floateq
        self.I.hooks["Constraint::log"] = self.h_log
        self.I.hooks["details::stringEqual"] = self.h_streq
        self.I.hooks["ValidateBase::stringEqual"] = self.h_streq
        self.loc, self.sts, self.env = input_stream(self.I, State(), self.p)
        self.sts = [s for s in self.sts if s.ab is None]
        if not self.sts:
            raise AnalysisBroken("InputStream constructor has no normal exit")
        self.cache = {}
        self.folded = None

    def h_streq(self, I, st, f, obj, args, e, fr):
        a, b = (models.pval(I, st, I.rv(st, x)) for x in args[:2])
        cs = I.rv(st, args[2]) if len(args) > 2 else P.a(Sym("caseSensitive_default", (), BOOL))
        q = st.facts.query(cs) if isinstance(cs, P) else None
        if q is not None:
            cs = P.c(q)
        rec = [r for r in self.p.r_by_q.get("boolean", []) if r["id"] == self.p.ty(f["ret"]).get("r")]
        t = P.a(Sym("stringEqual", (a, b, cs), BOOL))
        pos = P.a(Sym("diffpos", (a, b), U64))
        out = []
        for s, eq in I.branch(st, t):
            out.append((s, Rec(rec[0]["id"] if rec else None, {"value": P.c(eq), "reason": Opt(P.c(not eq), pos)})))
        return out

    def h_floateq(self, I, st, f, obj, args, e, fr):
        """tolerance comparison of two numbers: decided on its own (property of the comparison), opaque here"""
        return [(st, P.a(Sym("floatEqual", tuple(I.rv(st, x) for x in args), BOOL)))]

    def h_log(self, I, st, f, obj, args, e, fr):
        st.ev.append(("clog", obj, tuple(models.pval(I, st, I.rv(st, x)) for x in args)))
        return [(st, VOID)]

    def method(self, name, sig):
        r = [f for f in self.p.find("InputStream::" + name, sig=sig, all=True) if f.get("ta") is None and f.get("acc") == 0]
        if len(r) != 1:
            raise AnalysisBroken(f"reader {name}{sig}: {len(r)} definitions")
        return r[0]

    def args(self, f, st, extra=None):
        """symbolic arguments named by position"""
        out = []
        for i, q in enumerate(f["ps"]):
            ti = self.p.strip_ref(q["t"])
            ts = simp(self.p.ts(ti))
            if extra and i in extra:
                out.append(extra[i])
            elif self.I.nty(ti) is not None:
                s = Sym(f"arg{i}", (), self.I.nty(ti))
                out.append(P.a(s))
            elif "regex" in ts:
                l = Loc(("s", "regexarg", i))
                st.store[l.root] = Sym("regexarg", (i,))
                out.append(l)
            elif "string_view" in ts:
                v = Sym(f"strarg{i}")
                st.store[("s", "strarg", i)] = v
                out.append(v)
            elif "Constraint" in ts:
                l = Loc(("s", "constraint", i))
                st.store[l.root] = self.constraint()
                out.append(l)
            else:
                raise AnalysisBroken("reader parameter type " + ts)
        return out

    def constraint(self):
        rec = self.p.rec("Constraint")
        return Rec(rec["id"], {}, Sym("cinit"))

    def run(self, f, st=None, args=None, loc=None):
        out = []
        for s in ([st] if st is not None else self.sts):
            x = s.fork()
            a = args(x) if callable(args) else args if args is not None else self.args(f, x)
            out.extend(self.I.run(f, loc or self.loc, a, x))
        return out

    # ---------------------------------------------------------------- tokens
    def token_of(self, path):
        """positions of tokens consumed on the path"""
        return [e[2] for e in path.ev if e[0] == "token"]

    def flagval(self, facts, name):
        s = self.env[name].atom()
        v = facts.sets.get(s)
        return next(iter(v)) if v and len(v) == 1 else None

    def fold(self):
        """the value string() returns for a token in case-insensitive mode, as a function"""
        if self.folded is None:
            f = self.method("string", ())
            vals = set()
            for q in self.run(f):
                if q.kind == "return" and self.flagval(q.facts, "case") == 0:
                    t = self.token_of(q)
                    v = q.val
                    if len(t) == 1 and isinstance(v, Sym) and v.op == "map" and v.args[1] == Sym("tok", (t[0],)):
                        vals.add(v.args[0])
                    elif len(t) == 1 and v == Sym("tok", (t[0],)):
                        vals.add("id")
                    else:
                        vals.add(None)
            self.folded = vals
        return self.folded

    def token_value(self, facts, pos):
        t = Sym("tok", (pos,))
        cs = self.flagval(facts, "case")
        if cs == 1:
            return t
        fl = self.fold()
        if cs == 0 and len(fl) == 1:
            (m,) = fl
            if m == "id":
                return t
            if m is not None:
                return Sym("map", (m, t))
        return None

    def base_reject(self, facts, path):
        """may a rejection without a consumed token be justified? (end of input, or in
        space-sensitive mode a next character that cannot start a token)"""
        ss = self.flagval(facts, "space")
        p0 = Sym("pos", (Sym("stream", ("in",)),))
        return ss, p0

    # ---------------------------------------------------------------- grammar
    def lang(self, facts, V):
        return lang(self.I, facts, V)

    def feasible(self, facts, V):
        pos, neg, symb = self.lang(facts, V)
        if not pos and not neg:
            return True
        return R.witness(pos, neg) is not None

    # ---------------------------------------------------------------- parsing
    def parse_alts(self, V, kind, tystr):
        """[(guard, [conds], value)] accepting a whole token V as a number"""
        n = models.sizeof(self.I, State(), V)
        plus = c_eq(P.a(Sym("elem", (V, ZERO), CHAR)), P.c(43), "i")
        if kind == "real" and self.fallback:
            v = Sym("stold", (V,), F80)
            return [([], [P.a(Sym("stold_ok", (V,), BOOL)), c_eq(P.a(Sym("stold_pos", (V,), U64)), n, "i")], P.a(v))]
        out = []
        ty = I64 if kind == "integer" else F80
        rest = (P.c(10),) if kind == "integer" else (P.c(3),)
        for g, b in ((c_not(plus), ZERO), (plus, ONE)):
            key = (V, b, n, tystr) + rest
            ec, end, val = Sym("fc_ec", key, I32), Sym("fc_end", key, I64), Sym("fc_val", key, ty)
            out.append(([g], [c_eq(P.a(ec), ZERO, "i"), c_eq(P.a(end), n, "i")], P.a(val)))
        return out



    # ---------------------------------------------------------------- specification
    def fe(self, a, b):
        return P.a(Sym("floatEqual", (a, b, self.env["abs"], self.env["rel"]), BOOL))

    def streq(self, facts, V, x):
        cs = self.flagval(facts, "case")
        return P.a(Sym("stringEqual", (V, x, P.c(cs) if cs is not None else self.env["case"]), BOOL))

    def spec(self, name, sig, V, facts):
        """acceptance alternatives of a singular reader: [(guards, {stage: [cond]}, value)] and the token grammar"""
        A = [P.a(Sym(f"arg{i}", (), F80 if t == "long double" else I64)) for i, t in enumerate(sig)]
        n = models.sizeof(self.I, State(), V)
        if name == "string" or name == "expectString":
            st = {}
            i = 0
            if sig and "regex" in sig[0]:
                st["pattern"] = [P.a(Sym("regex_match", (V, Sym("regexarg", (0,))), BOOL))]
                i = 1
            if len(sig) > i and sig[i] == "long":
                st["bounds"] = [c_le(A[i], n, "i"), c_lt(n, A[i + 1], "i")]
            if name == "expectString":
                st["expected"] = [self.streq(facts, V, Sym("strarg0"))]
                return None, [([], st, None)]
            return None, [([], st, V)]
        kind = {"integer": "integer", "expectInt": "integer", "real": "real", "expectReal": "real", "realStrict": "strict"}[name]
        isint = kind == "integer"
        base = self.parse_alts(V, "integer" if isint else "real", "long" if isint else "long double")
        out = []
        for g, conds, v in base:
            st = {"parse": conds}
            if isint and len(sig) >= 2:
                st["bounds"] = [c_le(A[0], v, "i"), c_lt(v, A[1], "i")]
                out.append((g, st, v))
            elif name == "expectInt":
                st["expected"] = [c_eq(v, A[0], "i")]
                out.append((g, st, None))
            elif name == "expectReal":
                st["expected"] = [self.fe(v, A[0])]
                out.append((g, st, None))
            elif name == "real" and len(sig) >= 2:
                for c in ([c_le(A[0], v, "f"), c_lt(v, A[1], "f")], [self.fe(v, A[0])], [self.fe(v, A[1])]):
                    out.append((g, dict(st, bounds=c), v))
            elif name == "realStrict":
                dot = P.a(Sym("contains", (V, P.c(46)), BOOL))
                d = n - P.a(Sym("find", (V, P.c(46)), U64)) - ONE
                b = [c_le(A[0], v, "f"), c_lt(v, A[1], "f")]
                out.append((g + [dot], dict(st, decimals=[c_le(A[2], d, "i"), c_lt(d, A[3], "i")], bounds=b), v))
                out.append((g + [c_not(dot)], dict(st, decimals=[c_le(A[2], ZERO, "i"), c_lt(ZERO, A[3], "i")], bounds=b), v))
            else:
                out.append((g, st, v))
        return LANG[kind], out

    def start(self, facts):
        """(position where the token must start, set of characters that allow it), None if the mode is unknown"""
        p0 = Sym("pos", (Sym("stream", ("in",)),))
        ss = self.flagval(facts, "space")
        if ss == 1:
            return p0, GRAPH
        if ss == 0:
            return Sym("ws", (p0,)), frozenset(x for x in range(-128, 256) if x != -1)
        return None, None

    def tainted(self, q):
        """facts the domains could not express took part on this path"""
        seen = set()
        for a in list(q.facts.at) + [c[0] for c in q.facts.conds]:
            seen |= deep_atoms(a)
        return any(a.op in ("unk", "opaque", "havoc") for a in seen) or any(e[0] in ("unk", "unknown", "cut") for e in q.ev)

    def judge(self, name, sig, q):
        """-> (verdict, stage, detail): verdict ok / bad / undecided / infeasible"""
        F = q.facts
        sig = tuple(sig)
        core = tuple(s for s in sig if "Constraint" not in s)
        pos, okset = self.start(F)
        toks = self.token_of(q)
        if q.kind == "throw":
            if any(e[0] in ("token", "get", "ws", "out") for e in q.ev):
                return "bad", "final", "throws after the stream was touched"
            if name == "expectString":
                return "ok", "pre", ""
            return "undecided", "pre", "throws before reading"
        if q.kind not in ("return", "exit"):
            return "undecided", "base", "analysis cut: %s" % (q.kind,)
        if q.kind == "exit":
            code = q.val[1]
            if code != self.env["code"]:
                return "bad", "final", "rejects with %s instead of the verdict configured for the stream" % (code,)
        elif any(e[0] in ("out", "terminal") for e in q.ev):
            return "bad", "final", "returns a value after reporting a rejection"
        if not toks:
            if q.kind == "return":
                return "bad", "base", "returns without having read a token"
            if pos is None:
                return "undecided", "base", "mode unknown on the rejecting path"
            ch = F.sets.get(Sym("ch", (pos,), I32)) or next((v for k, v in F.sets.items() if k.op == "ch" and k.args == (pos,)), None)
            if ch is None:
                return "bad", "base", "rejects without looking at the next character"
            if ch & okset:
                return "bad", "base", "rejects although a token may start with %s" % (sorted(ch & okset)[:5],)
            return "ok", "base", ""
        if pos is None or len(toks) != 1 or toks[0] != pos:
            return "bad", "base", "token read at %s, expected exactly one at %s" % (toks, pos)
        ch = next((v for k, v in F.sets.items() if k.op == "ch" and k.args == (pos,)), None)
        if ch is None or not ch <= okset:
            return "bad", "base", "token accepted at a position where it must not start (%s)" % (sorted(ch - okset)[:5] if ch else "unchecked",)
        V = self.token_value(F, pos)
        if V is None:
            return "undecided", "base", "token value not expressible"
        dpos, dneg, symb = self.lang(F, V)
        if (dpos or dneg) and R.witness(dpos, dneg) is None:
            return "infeasible", "", ""
        gram, alts = self.spec(name, core, V, F)
        g = R.compile(gram) if gram else None
        if q.kind == "return":
            why = None
            for guards, st, val in alts:
                if any(F.query(x) is False for x in guards):
                    continue
                miss = None
                if g is not None:
                    w = R.witness(dpos, dneg + [g])
                    if w is not None:
                        miss = ("grammar", "accepts token %r" % w)
                if miss is None and not all(F.entails(x) for x in guards):
                    # the guard distinguishes a leading plus sign: only needed if the tokens allow it
                    if not self.guard_by_lang(guards, dpos, dneg, g):
                        miss = ("parse", "does not establish %s" % ([str(x) for x in guards],))
                for stage in STAGE:
                    if miss is None:
                        for c in st.get(stage, ()):
                            if not F.entails(c):
                                miss = (stage, "accepts without establishing %s" % (c,))
                                break
                if miss is None and val is not None and not self.same_value(F, q.val, val):
                    miss = ("value", "hands %s to the caller, specified %s" % (q.val, val))
                if miss is None:
                    why = None
                    break
                if why is None or STAGE_ORD[miss[0]] > STAGE_ORD[why[0]]:
                    why = miss
            else:
                if why is None:
                    return "infeasible", "", ""
            if why is None:
                logs = [e for e in q.ev if e[0] == "clog"]
                if "Constraint" in (sig[-1] if sig else ""):
                    i = next(i for i, t in enumerate(core) if t in ("long", "long double"))
                    T = F80 if core[i] == "long double" else I64
                    want = (P.a(Sym(f"arg{i}", (), T)), P.a(Sym(f"arg{i+1}", (), T)), q.val)
                    if len(logs) != 1 or logs[0][2][:2] != want[:2] or not self.same_value(F, logs[0][2][2], want[2]):
                        return "bad", "log", "constraint is told %s, expected one report of the bounds and the accepted value" % ([e[2] for e in logs],)
                elif logs:
                    return "bad", "log", "unexpected constraint report"
                return "ok", "", ""
            if self.tainted(q):
                return "undecided", why[0], why[1]
            return "bad", why[0], why[1]
        # rejection: every alternative must be contradicted
        if any(e[0] == "clog" for e in q.ev):
            return "bad", "log", "a rejected value was reported to the constraint"
        if g is not None:
            dpos = dpos + [g]
            if R.witness(dpos, dneg) is None:
                return "ok", "grammar", ""
        for guards, st, val in alts:
            if any(F.query(x) is False for x in guards):
                continue
            if any(a.op == "isnan" and t and any(b.op in ("fc_val", "stold") for b in deep_atoms(a)) for a, t in F.at.items()):
                continue   # a token of the number grammar never denotes NaN
            allc = list(guards) + [c for s in STAGE for c in st.get(s, ())]
            if F.consistent_with(*allc):
                f = F.copy()
                for c in allc:
                    f.assume(c)
                p2, n2, _ = self.lang(f, V)
                if (g is not None or p2 or n2) and R.witness(p2 + ([g] if g else []), n2) is None:
                    continue
                if self.tainted(q):
                    return "undecided", "reject", "rejection not justified by any acceptance condition"
                return "bad", "reject", "rejects a token although it satisfies the reader's conditions"
        return "ok", "reject", ""

    def guard_by_lang(self, guards, dpos, dneg, g):
        for x in guards:
            a = x.atom()
            neg = a is not None and a.op == "not"
            s = str(x)
            if "elem" in s:
                d = R.charat(0, frozenset((43,)))
                extra = ([d], []) if not neg else ([], [d])
                # guard must hold on every token of the path: no token violating it
                w = R.witness(dpos + ([g] if g else []) + extra[1], dneg + extra[0])
                if w is not None:
                    return False
            else:
                return False
        return True

    def same_value(self, F, a, b):
        if a == b:
            return True
        if isinstance(a, P) and isinstance(b, P):
            return F.entails(c_eq(a, b, "i"))
        return False


STAGE_ORD = {s: i for i, s in enumerate(STAGE + ["value", "final", "log"])}
