"""writes properties.jsonl, MANIFEST.json and the table in DESIGN.md from plan.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the compiled MIR with z3 (mirsym), against a reference, counterexamples replayed natively"
NA_PROPS = [json.loads(l) for l in open(os.path.join(V, "tool", "na_properties.jsonl"))] if os.path.exists(os.path.join(V, "tool", "na_properties.jsonl")) else []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for i, p in PLAN.items():
        assert len(p.title) <= 80, (i, len(p.title))
        f.write(json.dumps({"id": i, "title": p.title, "statement": p.statement, "quantifier": {"over": p.over, "text": p.qtext}, "why_tests_cant": p.why,
                            "anchors": {"files": p.files, "mechanism": [{"name": n, "where": w} for n, w in p.mechanism], "observe_at": p.observe, "hook_needed": None}}) + "\n")
    for p in NA_PROPS:
        reason = p.pop("reason")
        NOT_APPLICABLE.append({"property": p["id"], "reason": reason})
        f.write(json.dumps(p) + "\n")
checks = []
for i, p in PLAN.items():
    checks.append({"property": i, "quick_cmd": "python3 tool/check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 tool/check.py %s" % i,
                   "technique": TECH, "level": "model_checking",
                   "level_note": "Decided by z3 for every input within the bounds: %s. Outside: %s. Trusts the executor's model of MIR and the standard library (cross-checked natively on every run) and z3."
                                 % ("; ".join(h.name + ": " + h.what for h in p.quick), p.outside)})
json.dump({"version": 1, "setup_cmd": "python3 tool/build.py", "checks": checks, "not_applicable": NOT_APPLICABLE,
           "notes": "No hooks: the checks use the public API of /repo's crate, compiled from its working tree. See DESIGN.md."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
d = os.path.join(V, "DESIGN.md")
s = open(d).read() if os.path.exists(d) else "<!-- plan -->\n<!-- /plan -->\n"
a, b = s.index("<!-- plan -->"), s.index("<!-- /plan -->")
t = ["<!-- plan -->", ""]
for i, p in PLAN.items():
    t += ["### %s %s" % (i, p.title), "", "Decided over: " + p.qtext + ".", ""]
    t += ["* `%s`: %s%s%s" % (h.name, h.what, " (path mode)" if h.env.get("MIRSYM_MERGE") == "0" else "", "" if h in p.quick else " — thorough tier") for h in p.quick + p.thorough]
    t += ["", "Outside the claim: " + p.outside + ".", ""]
open(d, "w").write(s[:a] + "\n".join(t) + s[b:])
print(len(PLAN), "properties")
