#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the entries below (run by hand after editing)"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []          # (property, check or None, reason for not applicable)
V, GG, GV, RN, SR, PN, SV = ("src/validate.h", "src/graph_gen.h", "src/graph_val.h", "src/rng.h", "src/secure_rng.h", "src/visualizer_png.h", "src/visualizer_svg.h")


def p(id, title, statement, over, qtext, why, files, mech, obs, technique=None, note=None, na=None, level="other", hook=False):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=obs, hook_needed=hook)),
              None if na else dict(property=id, quick_cmd=f"python3 run.py {id} quick", thorough_cmd=f"python3 run.py {id} thorough",
                                   technique=technique, level=level, level_note=note), na))


ABS = "abstract interpretation: path-sensitive interprocedural dataflow over the clang AST (value numbering, intervals, difference bounds, finite value sets, loop invariants by widening)"

exec(open(os.path.join(HERE, "meta_entries.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x, _, _ in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
man = dict(version=1, setup_cmd="python3 run.py --setup", checks=[c for _, c, _ in P if c],
           not_applicable=[dict(property=x["id"], reason=r) for x, _, r in P if r],
           notes="Static analysis only: run.py exports the AST of /repo's current headers with a clang libTooling plugin, analyses it with lib/interp.py and judges the summaries. "
                 "No code of /repo is executed and no solver is used. INCOMPLETE (exit 0) means the sources could not be analysed as expected and no verdict is claimed.")
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "claimed,", len(man["not_applicable"]), "not applicable")
