"""Protocol of a run: initialise once, settings frozen afterwards, verdicts end the process, multipass files."""
from check import prop
from front import *
from interp import *
from envs import *
import models
import readers as RD
import c_roles as CR
from c_roles import prog, interp, canon, ROLES, CODES, A0, SET, fresh_state, argv, words, read_setting

EFFECT = ("token", "get", "ws", "out", "open", "remove", "rename", "seek", "seed", "flush")


def effects(ev):
    return [e for e in ev if e[0] in EFFECT]


def initialised(I, p, role, combo=frozenset()):
    """states after a successful init of the role; events cleared"""
    f = p.find(role + "::init")
    out = []
    for st in fresh_state(I, p):
        a = argv(I, st, words(combo, False))
        for q in I.run(f, None, a, st):
            if q.kind == "return":
                q.st.ev.clear()
                out.append((q.st, a))
    if not out:
        raise AnalysisBroken(role + "::init never returns")
    return out


@prop("R16", 120)
def r16(c):
    """initialisation protocol"""
    c.rule("once", "after a successful init every further init of any role throws std::logic_error before it touches a stream, a file or the random generator")
    c.rule("frozen", "before init assigning a setting takes effect; afterwards it throws std::logic_error and the setting keeps its value")
    c.rule("order", "Multipass::init before init throws std::logic_error without touching a file")
    c.rule("forgotten", "at exit the program is told (std::logic_error) exactly if no init ever happened and no exception is propagating")
    c.rule("unbound", "every reading operation of a default constructed InputStream throws before it reads anything")
    p = prog()
    I = interp(p)
    I.collapse_terminal = False
    logic = "std::logic_error"
    # not initialised at start
    for q in I.run(p.find("drv::initialized"), None, [], State()):
        c.expect(q.kind == "return" and q.facts.query(q.val) is False, "once", "details::initialized", "the program starts as initialised")
    for q in I.run(p.find("Multipass::init"), None, [], State()):
        c.expect(q.kind == "throw" and q.val[1] == logic and not effects(q.ev), "order", "Multipass::init", "before init: %s, effects %s" % (q.kind, effects(q.ev)[:2]))
    for k, fn in SET.items():
        for q in I.run(p.find("drv::" + fn), None, [A0[k]], State()):
            c.count("paths")
            c.expect(q.kind == "return" and read_setting(I, p, q.st, k) == A0[k], "frozen", "Setting " + k, "assignment before init has no effect")
    for role in ROLES:
        for st, a in initialised(I, p, role) + initialised(I, p, role, frozenset(("--seed",))):
            for other in ROLES:
                for q in I.run(p.find(other + "::init"), None, a, st.fork()):
                    c.count("paths")
                    c.expect(q.kind == "throw" and q.val[1] == logic and not effects(q.ev), "once", other + "::init", "second init after %s::init: %s, effects %s" % (role, q.val if q.kind == "throw" else q.kind, effects(q.ev)[:2]))
            for k, fn in SET.items():
                before = read_setting(I, p, st, k)
                for q in I.run(p.find("drv::" + fn), None, [P.a(Sym("other", (k,), A0[k].atom().ty))], st.fork()):
                    c.expect(q.kind == "throw" and q.val[1] == logic, "frozen", "Setting " + k, "assignment after %s::init is accepted" % role)
                    q.st.ab = None
                    c.expect(read_setting(I, p, q.st, k) == before and before is not None, "frozen", "Setting " + k, "a refused assignment changes the value")
            # asking twice: stays initialised
            s2 = [q for q in I.run(p.find("drv::initialized"), None, [], st.fork())]
            for q in s2:
                for r in I.run(p.find("drv::initialized"), None, [], q.st):
                    c.expect(r.kind == "return" and r.facts.query(r.val) is True, "once", "details::initialized", "does not stay initialised")
    guard(c, I, p)
    unbound(c, I, p)


def guard(c, I, p):
    f = p.find("drv::guard")
    seen = set()

    def unc(I, st, g, obj, args, e, fr):
        return [(st, P.a(Sym("uncaught", (), I32)))]
    I.hooks["std::uncaught_exceptions"] = unc
    for init in (False, True):
        states = [State()] if not init else [x for x, _ in initialised(I, p, "Generator")]
        for st in states:
            s = st.fork()
            s.facts.assume(c_le(ZERO, P.a(Sym("uncaught", (), I32)), "i"))
            g = Loc(("s", "guard"))
            s.store[g.root] = Rec(p.rec("details::InitGuard")["id"], {})
            for q in I.run(f, None, [g], s):
                n = q.facts.query(c_eq(P.a(Sym("uncaught", (), I32)), ZERO, "i"))
                want = not init and n is True
                if not init and n is None:
                    c.bad("forgotten", "details::InitGuard", "decides without asking whether an exception propagates: %s" % q.kind)
                    continue
                seen.add((init, n))
                c.expect((q.kind == "throw") is want, "forgotten", "details::InitGuard", "initialised %s, propagating exception %s: %s" % (init, n is False, q.kind))
    c.expect((False, True) in seen, "forgotten", "details::InitGuard", "no path for a forgotten init")
    # the destructor may throw at all
    d = p.funcs.get(p.rec("details::InitGuard").get("dtor"))
    if d is not None:
        c.expect(bool(d.get("body")), "forgotten", "details::InitGuard", "no destructor")
    gl = [g for g in p.globals.values() if "InitGuard" in p.ts(g["t"])] if hasattr(p, "globals") else None
    if gl is not None:
        c.expect(len(gl) >= 1, "forgotten", "details::InitGuard", "no object with static storage duration")


def unbound(c, I, p):
    rd = RD.Readers()
    p, I = rd.p, rd.I
    rec = p.rec("InputStream")
    ctor = [p.funcs[m] for m in rec["methods"] if p.funcs[m].get("ctor") and not p.funcs[m]["ps"] and not p.funcs[m].get("deleted")]
    if len(ctor) != 1:
        raise AnalysisBroken("InputStream() not found")
    loc = Loc(("s", "unbound"))
    sts = I.run_ctor(State(), ctor[0], loc, [], Frame(("f", -1), None, None, None, 0), {"ln": 0})
    n = 0
    for st in sts:
        if st.ab is not None:
            c.bad("unbound", "InputStream()", "the default constructor fails")
            continue
        for f in p.find("InputStream::", all=True) if False else [p.funcs[m] for m in rec["methods"]]:
            if f.get("ctor") or f.get("dtor") or f.get("deleted") or f.get("acc") != 0 or f["n"].startswith("operator") or not f.get("body"):
                continue
            if f.get("ta"):
                continue
            s = st.fork()
            try:
                args = rd.args(f, s)
            except AnalysisBroken:
                continue
            sep = [i for i, q in enumerate(f["ps"]) if q["n"].startswith("sep") and I.nty(p.strip_ref(q["t"])) is not None]
            # several values: at least one
            cnt = [i for i, q in enumerate(f["ps"]) if f["n"] in ("strings", "integers", "reals", "realsStrict") and q["n"] in ("count",)]
            for i in cnt:
                args[i] = P.c(2)
            for i in sep:
                args[i] = P.c(32)
            n += 1
            k = "InputStream::%s(%s)" % (f["n"], ", ".join(p.psig(f)))
            for q in I.run(f, loc, args, s):
                c.count("paths")
                eff = [e for e in q.ev if e[0] in ("token", "get", "ws", "out")]
                if q.kind == "return" and f["n"] in ("space", "newline") and not eff:
                    continue      # separator checks may demand nothing
                if q.kind == "return":
                    c.bad("unbound", k, "succeeds on a stream that was never opened")
                elif q.kind == "throw":
                    c.expect(not eff, "unbound", k, "touches the missing stream: %s" % (eff[:1],))
                elif q.kind == "exit":
                    c.bad("unbound", k, "ends the process")
                else:
                    c.undecided("unbound", k, str(q.kind))
    c.count("operations of an unopened stream", n)


def drv1(p, I, fn, args, st):
    return I.run(p.find("drv::" + fn), None, args, st)


@prop("R20", 14)
def r20(c):
    """verdicts"""
    c.rule("code", "AC is exit code 42, WA and PE are 43, FAIL is 1")
    c.rule("terminal", "writing a verdict to a std::ostream or an OutputStream ends the line, flushes the stream and ends the process with the code of the verdict; it never returns; the text written before stays")
    c.rule("exit", "Verdict::exit and exitVerdict end the process with exactly the given code through std::exit")
    p = prog()
    I = interp(p)
    I.collapse_terminal = False
    for v, code in CODES.items():
        for q in drv1(p, I, "v" + v, [], State()):
            if q.kind != "return":
                raise AnalysisBroken("constant " + v)
            loc = Loc(("s", "verdict"))
            q.st.store[loc.root] = q.val
            for r in drv1(p, I, "verdictCode", [loc], q.st.fork()):
                c.expect(r.kind == "return" and r.val == P.c(code), "code", "Verdicts::" + v, "code is %s, specified %d" % (r.val, code))
    rec = p.rec("Verdicts::Verdict")
    ctor = [p.funcs[m] for m in rec["methods"] if p.funcs[m].get("ctor") and len(p.funcs[m]["ps"]) == 1 and "int" == simp(p.ts(p.funcs[m]["ps"][0]["t"]))]
    if len(ctor) != 1:
        raise AnalysisBroken("Verdict(int)")
    X = P.a(Sym("code", (), I32))
    for s in I.run_ctor(State(), ctor[0], Loc(("s", "verdict")), [X], Frame(("f", -1), None, None, None, 0), {"ln": 0}):
        loc = Loc(("s", "verdict"))
        for r in drv1(p, I, "verdictCode", [loc], s.fork()):
            c.expect(r.kind == "return" and r.val == X, "code", "Verdict(int)", "yields %s" % (r.val,))
        for r in drv1(p, I, "verdictExit", [loc], s.fork()):
            c.expect(r.kind == "exit" and r.val[1] == X, "exit", "Verdict::exit", "%s" % (r.val,))
        t = s.fork()
        os = Loc(("s", "sink", "os"))
        t.store[os.root] = Sym("sink", ("os",))
        for r in drv1(p, I, "verdict", [os, loc], t):
            line(c, r, X, t.store[os.root], [], "operator<<(std::ostream&, Verdict)")
        t = s.fork()
        o = ostream_obj(I, t, p, "msg")
        sink = Sym("sink", ("msg",))
        for r in drv1(p, I, "verdictOut", [o, loc], t.fork()):
            line(c, r, X, sink, [], "OutputStream << Verdict")
        for r in drv1(p, I, "verdictMsg", [o, Sym("message"), loc], t.fork()):
            line(c, r, X, sink, [Sym("message")], "OutputStream << message << Verdict")
    for f in p.find("Settings::details::exitVerdict", all=True) if p.by_q.get("Settings::details::exitVerdict") else []:
        for r in I.run(f, None, [X], State()):
            c.expect(r.kind == "exit" and r.val[1] == X, "exit", "exitVerdict", "%s %s" % (r.kind, r.val))


def line(c, r, X, sink, before, k):
    c.count("paths")
    outs = [e for e in r.ev if e[0] == "out"]
    if r.kind != "exit":
        c.bad("terminal", k, "does not end the process: %s" % r.kind)
        return
    c.expect(r.val[1] == X, "terminal", k, "ends with code %s" % (r.val[1],))
    text = [e[2] for e in outs if e[1] == sink]
    flat = []
    for t in text:
        flat.extend(t.args if isinstance(t, Sym) and t.op == "cat" else [t])
    c.expect(flat == before + [Str("\n")] and len(text) == len(outs), "terminal", k, "writes %s" % (flat,))
    last = [i for i, e in enumerate(r.ev) if e[0] == "out" and e[1] == sink]
    fl = [i for i, e in enumerate(r.ev) if e[0] == "flush" and e[1] == sink]
    c.expect(bool(fl) and (not last or fl[-1] > last[-1]), "terminal", k, "the stream is not flushed")


# ---------------------------------------------------------------- multipass
def norm_path(v):
    if isinstance(v, Sym) and v.op == "path/":
        return tuple(y for x in v.args for y in norm_path(x))
    return (v,)


WRITE, READ = "ofstream", "ifstream"


@prop("R21", 60)
def r21(c):
    """multipass protocol"""
    c.rule("pass number", "the first pass has number 0, later ones the stored number plus one; the number is stored in the feedback directory after the files were opened")
    c.rule("state files", "the state written in a pass is the one the next pass reads: .state0 and .state1 alternate, the file read is never removed or opened for writing, no state is read in the first pass")
    c.rule("next", "NEXT writes exactly what was written to nextpass to nextpass.in, closes it, and ends the process with 42; NEXT on a stream ends its line first")
    p = prog()
    I = interp(p)
    I.collapse_terminal = False
    D = Sym("word", (3,))
    for role in ("OutputValidator", "Interactor"):
        for st, _ in initialised(I, p, role):
            prev0 = canon(I, st, I.read(st, Loc(("g", p.glob("Multipass::prevstate")["id"]))))
            for q in I.run(p.find("Multipass::init"), None, [], st.fork()):
                c.count("paths")
                multi(c, I, p, q, D, prev0)
            # the same for constant stored numbers: decides computations of the parity the domains cannot follow
            for n in range(16 if c.thorough else 8):
                I.next_number = P.c(n)
                for q in I.run(p.find("Multipass::init"), None, [], st.fork()):
                    c.count("paths")
                    multi(c, I, p, q, D, prev0, n)
            I.next_number = None
            break


def multi(c, I, p, q, D, prev0, stored=None):
    k = "Multipass::init"
    F = q.facts
    passf = (D, Str(".pass"))
    ex = [F.query(P.a(a)) for a in F.at if a.op == "exists" and norm_path(a.args[0]) == passf]
    opens = [(i, e[1], norm_path(e[2]), e[3]) for i, e in enumerate(q.ev) if e[0] == "open"]
    removes = [(i, norm_path(e[1])) for i, e in enumerate(q.ev) if e[0] == "remove"]
    allf = [o[2] for o in opens] + [r[1] for r in removes]
    state = {0: (D, Str(".state0")), 1: (D, Str(".state1"))}
    c.expect(all(f in (passf, state[0], state[1]) for f in allf), "state files", k, "touches %s" % ([f for f in allf if f not in (passf, state[0], state[1])],))
    if len(ex) != 1 or ex[0] is None:
        c.undecided("pass number", k, "the path does not ask whether the pass file exists")
        return
    rd = [o for o in opens if o[1] == READ]
    wr = [o for o in opens if o[1] == WRITE]
    passw = [o for o in wr if o[2] == passf]
    tok = [(i, e) for i, e in enumerate(q.ev) if e[0] == "token"]
    if q.kind == "throw":
        c.expect(q.val[1] == "std::runtime_error", "pass number", k, "throws %s" % (q.val,))
        c.expect(not passw, "pass number", k, "the pass number is stored although initialisation fails")
        return
    if q.kind != "return":
        c.undecided("pass number", k, str(q.kind))
        return
    r = [x for x in I.run(p.find("drv::pass"), None, [], q.st.fork()) if x.kind == "return"]
    val = r[0].val
    if ex[0] is False:
        c.expect(val == ZERO, "pass number", k, "first pass has number %s" % (val,))
        c.expect(not rd, "state files", k, "reads %s in the first pass" % ([o[2] for o in rd],))
        par = 0
        now = canon(I, q.st, I.read(q.st, Loc(("g", p.glob("Multipass::prevstate")["id"]))))
        c.expect(now == prev0, "state files", k, "prevstate is bound in the first pass")
    else:
        pr = [o for o in rd if o[2] == passf]
        c.expect(len(pr) == 1 and len(tok) >= 1, "pass number", k, "the stored number is not read")
        if not (len(pr) == 1 and tok):
            return
        num = [a for a in atoms_of(val) if a.op == "num"]
        c.expect(val == P.c(stored + 1) if stored is not None else len(num) == 1 and val == P.a(num[0]) + ONE, "pass number", k, "is %s, specified stored number + 1" % (val,))
        od = [x for x in I.run(p.find("drv::odd"), None, [val], q.st.fork())]
        bits = {x.facts.query(x.val) for x in od}
        if len(bits) != 1 or None in bits:
            c.undecided("state files", k, "parity of the pass number unknown on the path")
            return
        par = 1 if bits == {True} else 0
        other = state[1 - par]
        so = [o for o in rd if o[2] != passf]
        c.expect(len(so) == 1 and so[0][2] == other, "state files", k, "pass with %s number reads %s" % ("odd" if par else "even", [o[2][1:] for o in so]))
        if len(so) == 1:
            g = canon(I, q.st, I.read(q.st, Loc(("g", p.glob("Multipass::prevstate")["id"]))))
            ref = [canon(I, x.st, x.val) for x in I.run(p.find("drv::inState"), None, [D, Str(".state%d" % (1 - par))], q.st.fork()) if x.kind == "return"]
            c.expect(g in ref, "state files", "Multipass::prevstate", CR.diff(g, ref[0] if ref else None))
        c.expect(not passw or passw[0][0] > tok[0][0], "pass number", k, "the pass file is overwritten before it is read")
    mine = state[par]
    sw = [o for o in wr if o[2] != passf]
    c.expect(len(sw) == 1 and sw[0][2] == mine, "state files", k, "pass with %s number writes %s" % ("odd" if par else "even", [o[2][1:] for o in sw]))
    c.expect(all(f == mine for _, f in removes), "state files", k, "removes %s" % (removes,))
    if len(sw) == 1:
        m = sw[0][3]
        mc = 16 if m is None else m.const() if isinstance(m, P) else None
        c.expect(None if mc is None else (mc & 16) and not mc & 1 and not (mc & 8 and not mc & 32), "state files", k, "open mode %s" % (m,))
        c.expect(all(i < sw[0][0] for i, _ in removes), "state files", k, "removes the state after it was opened")
        g = canon(I, q.st, I.read(q.st, Loc(("g", p.glob("Multipass::nextstate")["id"]))))
        ref = [canon(I, x.st, x.val) for x in I.run(p.find("drv::outFile"), None, [D, Str(".state%d" % par), m if m is not None else P.c(16)], q.st.fork()) if x.kind == "return"]
        c.expect(g in ref, "state files", "Multipass::nextstate", CR.diff(g, ref[0] if ref else None))
    c.expect(len(passw) == 1, "pass number", k, "the pass number is stored %d times" % len(passw))
    if len(passw) == 1:
        outs = [e[2] for e in q.ev[passw[0][0]:] if e[0] == "out"]
        want = Str("0") if ex[0] is False else Str(str(val.const())) if val.const() is not None else Sym("intout", (val,))
        c.expect(outs[:1] == [want] and len(outs) == 1 or [strip(o) for o in outs] == [want], "pass number", k, "stores %s" % (outs,))
        mo = [e[3] for e in q.ev if e[0] == "open" and e[1] == WRITE and norm_path(e[2]) == passf]
        mc = 16 if mo[0] is None else mo[0].const() if isinstance(mo[0], P) else None
        c.expect(None if mc is None else bool(mc & 16) and not mc & 1 and not (mc & 8 and not mc & 32), "pass number", k, "open mode %s" % (mo[0],))
    nxt(c, I, p, q, D)


def strip(o):
    return Str(o.s.strip()) if isinstance(o, Str) else o


def atoms_of(v):
    return list({m[0] for mm in v.t for m in mm}) if isinstance(v, P) else []


def nxt(c, I, p, q, D):
    fs = [f for f in p.by_q.get("Multipass::NEXT", []) if f.get("body")]
    if len(fs) != 2:
        raise AnalysisBroken("Multipass::NEXT")
    for f in fs:
        st = q.st.fork()
        st.ev.clear()
        args = []
        k = "Multipass::NEXT()"
        g = Loc(("g", p.glob("Multipass::nextpass")["id"]))
        pre = [x for x in I.run(p.find("drv::say"), None, [g, Sym("text1")], st) if x.kind == "return"]
        pre = [y for x in pre for y in I.run(p.find("drv::say"), None, [g, Sym("text2")], x.st) if y.kind == "return"]
        for x in pre:
            n0 = len(x.ev)
            args = []
            s = x.st
            if f["ps"]:
                k = "Multipass::NEXT(std::ostream&)"
                os = Loc(("s", "sink", "os"))
                s.store[os.root] = Sym("sink", ("os",))
                args = [os]
            for r in I.run(f, None, args, s):
                c.count("paths")
                ev = r.ev[n0:]
                if r.kind == "throw":
                    c.expect(r.val[1] == "std::runtime_error", "next", k, "throws %s" % (r.val,))
                    continue
                if r.kind != "exit":
                    c.bad("next", k, "does not end the process: %s" % r.kind)
                    continue
                c.expect(r.val[1] == P.c(42), "next", k, "ends with %s" % (r.val[1],))
                op = [(i, e) for i, e in enumerate(ev) if e[0] == "open"]
                c.expect(len(op) == 1 and op[0][1][1] == WRITE and norm_path(op[0][1][2]) == (D, Str("nextpass.in")), "next", k, "opens %s" % ([o[1][1:3] for o in op],))
                if len(op) != 1:
                    continue
                m = op[0][1][3]
                mc = 16 if m is None else m.const() if isinstance(m, P) else None
                c.expect(None if mc is None else bool(mc & 16) and not mc & 1 and not (mc & 8 and not mc & 32), "next", k, "open mode %s" % (m,))
                sink = [e[1] for e in ev[op[0][0]:] if e[0] == "out" and not (f["ps"] and e[1] == Sym("sink", ("os",)))]
                text = [y for e in ev[op[0][0]:] if e[0] == "out" and e[1] in sink for y in (e[2].args if isinstance(e[2], Sym) and e[2].op == "cat" else (e[2],))]
                buf = {e[1] for e in r.ev[:n0] if e[0] == "out"}
                c.expect(text == [Sym("text1"), Sym("text2")] or len(buf) == 1 and text == [Sym("text", tuple(buf))], "next", k, "writes %s to nextpass.in" % (text,))
                fin = [i for i, e in enumerate(ev) if (e[0] in ("close", "flush") and e[1] in sink)]
                lastw = [i for i, e in enumerate(ev) if e[0] == "out" and e[1] in sink]
                c.expect(bool(fin) and bool(lastw) and fin[-1] > lastw[-1], "next", k, "the process ends before nextpass.in is flushed")
                if f["ps"]:
                    t = [e[2] for e in ev if e[0] == "out" and e[1] == Sym("sink", ("os",))]
                    fl = [e for e in ev if e[0] == "flush" and e[1] == Sym("sink", ("os",))]
                    c.expect(t == [Str("\n")] and bool(fl), "next", k, "the line of the stream is not ended: %s" % (t,))
