"""Check driver: obligations, evidence, known findings, exit status."""
import json, os, sys, time, traceback
from front import VERIF, REPO, AnalysisBroken

KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
REGISTRY = {}


def prop(pid, floor=1):
    """register the decision procedure of a property; floor: least number of decided
    obligations that makes a run meaningful (confirmed by hand on the original tree)"""
    def d(fn):
        REGISTRY[pid] = (fn, floor)
        return fn
    return d


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obs = []            # (rule, construct, status, detail)
        self.rules = {}
        self.assumptions = []
        self.analysed = {}
        self.notes = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def rule(self, name, text):
        self.rules[name] = text

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def count(self, what, n=1):
        self.analysed[what] = self.analysed.get(what, 0) + n

    def note(self, text):
        if len(self.notes) < 60 and text not in self.notes:
            self.notes.append(text)

    def ok(self, rule, construct, detail=""):
        self.obs.append((rule, construct, "ok", detail))
        return True

    def bad(self, rule, construct, detail=""):
        self.obs.append((rule, construct, "bad", detail))
        return False

    def undecided(self, rule, construct, detail=""):
        self.obs.append((rule, construct, "undecided", detail))

    def expect(self, cond, rule, construct, detail=""):
        """cond True: discharged, False: refuted, None: undecided"""
        self.obs.append((rule, construct, "undecided" if cond is None else "ok" if cond else "bad", "" if cond else detail))
        return bool(cond)


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known: property=" + pid + " "):
                # known: property=<id> key=<rule>@<construct> :: <what fails>
                rest = line.split(" ", 2)[2]
                key, _, what = rest.partition(" :: ")
                out.append((key[len("key="):], what))
    return out


def main(argv):
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import importlib
    cdir = os.path.join(VERIF, "checks")
    sys.path.insert(0, cdir)
    for f in sorted(os.listdir(cdir)):
        if f.endswith(".py"):
            importlib.import_module(f[:-3])
    if pid not in REGISTRY:
        print("unknown property", pid)
        return 2
    fn, floor = REGISTRY[pid]
    c = Check(pid, tier)
    t0 = time.time()
    broken = None
    try:
        fn(c)
    except AnalysisBroken as e:
        broken = str(e)
    except RecursionError:
        broken = "recursion limit of the analyser"
    except Exception:
        broken = traceback.format_exc()
        sys.stderr.write(broken)
    wall = time.time() - t0
    bad = [o for o in c.obs if o[2] == "bad"]
    ok = [o for o in c.obs if o[2] == "ok"]
    und = [o for o in c.obs if o[2] == "undecided"]
    known, viol, used = known_findings(pid), [], []
    for o in bad:
        k = o[0] + "@" + o[1]
        m = [w for kk, w in known if kk == k]
        (used if m else viol).append((o, m[0] if m else None))
    if broken is None and len(ok) + len(bad) < floor:
        broken = f"only {len(ok) + len(bad)} obligations decided, expected at least {floor}"
    byrule = {}
    for r, k, s, d in c.obs:
        x = byrule.setdefault(r, {"text": c.rules.get(r, ""), "ok": 0, "bad": 0, "undecided": 0, "constructs": set()})
        x[s] += 1
        x["constructs"].add(k)
    for x in byrule.values():
        cs = sorted(x["constructs"])
        x["constructs"] = len(cs)
        x["sample_constructs"] = cs[:6]
    cov = {
        "explanation": "Static analysis of the current sources of " + REPO + ": each rule is decided on every listed construct; "
                       "an obligation is one rule on one path, call site, constant or type of that construct.",
        "obligations": len(c.obs), "discharged": len(ok), "refuted": len(bad), "undecided": len(und),
        "rules": byrule, "analysed": c.analysed,
        "undecided_samples": [list(o) for o in und[:12]], "refuted_samples": [list(o) for o in bad[:20]],
        "checker_cmd": f"python3 run.py {pid} {tier}",
        "trusted_base": ["clang 18 front end", "library models in lib/models.py", "abstract domains in lib/dom.py"],
    }
    if c.notes:
        cov["notes"] = c.notes
    if broken:
        cov["incomplete"] = broken[-1500:]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": c.assumptions, "wall_s": round(wall, 3),
          "violations": [{"rule": o[0], "construct": o[1], "detail": o[3]} for o, _ in viol]}
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} [{tier}]: {len(c.obs)} obligations, {len(ok)} discharged, {len(bad)} refuted, {len(und)} undecided, "
          + ", ".join(f"{v} {k}" for k, v in c.analysed.items()) + f", {wall:.1f}s")
    seen = set()
    for o, w in used:
        if (o[0], o[1]) not in seen:
            seen.add((o[0], o[1]))
            print(f"KNOWN-FINDING: property={pid} {w}")
    if viol:
        rp = os.path.join("evidence", pid + ".violation.txt")
        with open(os.path.join(VERIF, rp), "w") as f:
            for o, _ in viol:
                f.write(f"rule {o[0]}: {c.rules.get(o[0], '')}\n  construct: {o[1]}\n  {o[3]}\n")
            f.write(f"re-run: cd /verif && python3 run.py {pid} {tier}\n")
        for o, _ in viol[:10]:
            print(f"  refuted {o[0]} at {o[1]}: {o[3][:600]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if broken:
        # no verdict: the sources could not be analysed as expected; this is not a violation
        print(f"INCOMPLETE property={pid}: {broken.strip().splitlines()[-1]}")
    return 0
