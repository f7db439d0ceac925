"""The headers as translation units: type check of every supported way to include them."""
import os, re, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from itertools import permutations
from check import prop
from front import REPO, AnalysisBroken

STD = {"graph_gen.h": ("20",)}       # uses std::ranges
OTHERS = ("20", "17")
VIS = ("visualizer_png.h", "visualizer_svg.h")

# every class template and function template of the readers is named once, so that bodies are checked, too
USE = {
    "rng.h": "Xoshiro256ss e(1ull); auto x = e(); e.jump(); (void)x;",
    "secure_rng.h": "AES_RNG e(1ull); auto x = e(); (void)x;",
}


def units(src):
    hs = sorted(h for h in os.listdir(src) if h.endswith(".h"))
    for h in hs:
        for std in STD.get(h, OTHERS):
            yield "alone", (h,), std, ()
            yield "twice", (h, h), std, ()
    core = [h for h in hs if h not in VIS]
    seen = set()
    # graph_gen.h (generators) and graph_val.h (validators) both define Graph: either one or the other
    for std, xs in (("20", [h for h in core if h != "graph_val.h"]), ("20", [h for h in core if h != "graph_gen.h"]), ("17", [h for h in core if h not in STD])):
        for o in list(permutations(xs, 2)) + [tuple(xs), tuple(reversed(xs))]:
            if (o, std) not in seen:
                seen.add((o, std))
                yield "together", o, std, ()
    if "validate.h" in hs:
        for std in OTHERS:
            yield "configured", ("validate.h",), std, ("-DDOUBLE_FALLBACK",)


@prop("H01", floor=60)
def h01(c):
    c.rule("alone", "the header compiles as the only include of a translation unit")
    c.rule("twice", "including the header twice changes nothing")
    c.rule("together", "the headers of validator and generator compile in every order of inclusion")
    c.rule("configured", "validate.h compiles with the documented macro DOUBLE_FALLBACK")
    src = os.path.join(REPO, "src")
    if not os.path.isdir(src):
        raise AnalysisBroken("no directory src")
    tmp = tempfile.mkdtemp(prefix="h01")
    ccs = [x for x in (("g++", ()), ("clang++-18", ()), ("g++", ("-m32",))) if shutil.which(x[0])]
    if not ccs:
        raise AnalysisBroken("no compiler")
    jobs = []
    for i, (rule, hs, std, fl) in enumerate(units(src)):
        for cc, more in ccs:
            if more and (rule != "alone"):
                continue
            if rule == "together" and cc != "clang++-18" and len(hs) == 2 and not c.thorough:
                continue
            jobs.append((rule, hs, std, fl + more, cc, os.path.join(tmp, "%d.cpp" % i)))
    for rule, hs, std, fl, cc, f in jobs:
        with open(f, "w") as o:
            o.write("".join('#include "%s"\n' % os.path.join(src, h) for h in hs))
            o.write("int main() { %s }\n" % " ".join("{ " + USE[h] + " }" for h in dict.fromkeys(hs) if h in USE))

    def go(j):
        rule, hs, std, fl, cc, f = j
        r = subprocess.run([cc, "-std=c++" + std, "-fsyntax-only", "-w", *fl, f], capture_output=True, text=True, env=dict(os.environ, LC_ALL="C"))
        return j, r.returncode, r.stderr
    try:
        # is there a 32 bit library?
        probe = os.path.join(tmp, "p.cpp")
        with open(probe, "w") as o:
            o.write("#include <vector>\n#include <iostream>\nint main(){}\n")
        m32 = subprocess.run(["g++", "-m32", "-fsyntax-only", probe], capture_output=True).returncode == 0
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(go, [j for j in jobs if m32 or "-m32" not in j[3]]))
    finally:
        shutil.rmtree(tmp)
    for (rule, hs, std, fl, cc, f), rc, err in rs:
        c.count("translation units")
        k = "+".join(hs)
        if rc == 0:
            c.ok(rule, k)
            continue
        e = re.search(r"^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$", err, re.M)
        if not e or rc < 0:
            c.undecided(rule, k, "the compiler failed without a diagnostic: " + err[-200:])
            continue
        c.bad(rule, k, "%s -std=c++%s %s: %s:%s: %s" % (cc, std, " ".join(fl), os.path.basename(e.group(1)), e.group(2), e.group(3)[:160]))
