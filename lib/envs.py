"""Abstract entry states for the analysed entry points."""
from dom import *
from interp import *
import models


def istream_obj(I, st, name="in", skip=None):
    loc = Loc(("s", "stream", name))
    st.store[loc.root] = models.istream_value((name,), skip if skip is not None else P.a(Sym("skip_" + name, (), BOOL)))
    return loc


def flag(st, name):
    s = Sym(name, (), BOOL)
    st.facts.sets[s] = frozenset((0, 1))
    return P.a(s)


def ostream_obj(I, st, p, name="jury"):
    """an OutputStream object bound to a named symbolic sink"""
    rec = [r for r in p.r_by_q.get("OutputStream", [])][0]
    sink = Loc(("s", "sink", name))
    st.store[sink.root] = Sym("sink", (name,))
    loc = Loc(("s", "ostream", name))
    fields = {}
    for f in rec["fields"]:
        t = p.ty(f["t"])
        if t["k"] == "ptr":
            fields[f["n"]] = sink
        else:
            fields[f["n"]] = NULL
    st.store[loc.root] = Rec(rec["id"], fields)
    return loc


def input_stream(I, st, p, name="in"):
    """an InputStream bound to symbolic stream, with symbolic settings, built by running its
    constructor on an istream (so that private member names do not matter)"""
    rec = p.rec("InputStream")
    ctor = [p.funcs[m] for m in rec["methods"] if p.funcs[m].get("ctor") and not p.funcs[m].get("deleted")
            and len(p.funcs[m]["ps"]) >= 5 and "basic_istream" in p.ts(p.funcs[m]["ps"][0]["t"])]
    if len(ctor) != 1:
        raise AnalysisBroken("InputStream(std::istream&, ...) constructor not found")
    ctor = ctor[0]
    sp, cs = flag(st, "spaceSensitive"), flag(st, "caseSensitive")
    loc = Loc(("s", "InputStream", name))
    strm = istream_obj(I, st, name)
    out = ostream_obj(I, st, p)
    onfail = Loc(("s", "verdict"))
    vrec = p.rec("Verdicts::Verdict")
    code = P.a(Sym("onFail", (), I32))
    st.store[onfail.root] = Rec(vrec["id"], {vrec["fields"][0]["n"]: code})
    at, rt = P.a(Sym("absTol", (), F80)), P.a(Sym("relTol", (), F80))
    args = [strm, sp, cs, out, onfail, at, rt]
    fr = Frame(("f", -1), None, None, None, 0)
    sts = I.run_ctor(st, ctor, loc, args, fr, {"ln": 0})
    return loc, sts, dict(space=sp, case=cs, code=code, abs=at, rel=rt, stream=strm, out=out)
