"""check.py <property>: decides one property by symbolic execution of /repo's current code.

Exit 0: every harness of the property was discharged by the solver over its whole domain (or what was not is stated);
exit 1 with a VIOLATION line: a counterexample that also fails natively; exit 2: no answer.

A harness on which the executor fails, disagrees with the real code or gives a counterexample that the real code does
not have is not decided: it is reported (INCOMPLETE), and there is no answer if no other harness was decided.
MIRSYM_STRICT=1 (used while developing) makes any such harness an exit 2.
"""
import glob, json, os, random, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from plan import PLAN, ASSUMPTIONS

VERIF = build.VERIF
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
HARD = 780 if TIER == "quick" else 6 * 3600
REPLAYS = os.path.join(build.BUILD, "replays")


def native(b, h, asgs, reps=1):
    """outcomes of native runs; crashes are reported as failures"""
    os.makedirs(REPLAYS, exist_ok=True)
    f = os.path.join(REPLAYS, "in-%s-%d.json" % (h, os.getpid()))
    with open(f, "w") as o:
        json.dump(asgs, o)
    try:
        p = subprocess.run([b["replay"], h, f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=300,
                           env=dict(os.environ, MIRSYM_REPS=str(reps), RUST_MIN_STACK=str(1 << 28)))
        lines = [json.loads(l) for l in p.stdout.splitlines() if l.startswith("{")]
    except subprocess.TimeoutExpired:
        lines = []
    os.unlink(f)
    return lines


def domain(desc):
    if desc == "bool":
        return [0, 1]
    if desc.startswith("0.."):
        return range(int(desc[3:]))
    if desc.startswith("char in "):
        cs = desc[8:]
        return [x for i in range(0, len(cs), 2) for x in range(ord(cs[i]), ord(cs[i + 1]) + 1)]
    return [0]


def run_harness(b, prop, h, deadline):
    out = os.path.join(build.BUILD, "run", "%s-%s.json" % (prop, h.name))
    os.makedirs(os.path.dirname(out), exist_ok=True)
    for f in glob.glob(out + "*"):
        os.unlink(f)
    t = min(h.timeout, max(20, deadline - time.time()))
    p = build.run_engine(b, h.name, out, t, h.env)
    try:
        rc = p.wait(t + 120)
    except subprocess.TimeoutExpired:
        p.kill()
        rc = -1
    r = None
    if rc == 0 and os.path.exists(out):
        r = json.load(open(out))
    log = open(out + ".log").read()[-1500:]
    for f in glob.glob(out + ".rlib*") + glob.glob(out + ".d"):
        os.unlink(f)
    return h, r, log


def known():
    try:
        return json.load(open(os.path.join(VERIF, "known_findings.json")))["known"]
    except OSError:
        return []


def main():
    prop = sys.argv[1]
    t0 = time.time()
    deadline = t0 + HARD
    plan = PLAN[prop]
    hs = plan.quick if TIER == "quick" else plan.quick + plan.thorough
    try:
        b = build.setup()
    except build.BuildError as e:
        print("no answer: cannot build the code under test\n%s" % e)
        return 2
    tb = time.time() - t0
    rnd = random.Random("%d/%s" % (SEED, prop))
    problems, violations, findings, incomplete = [], [], [], []
    cov = {"harnesses": [], "states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
    fns, nats, queries, solver = set(), set(), 0, 0.0
    decided = 0
    kf = {(k["property"], k["check"]): k for k in known()}
    with ThreadPoolExecutor(8) as ex:
        results = list(ex.map(lambda h: run_harness(b, prop, h, deadline), hs))
    for h, r, log in results:
        before = len(problems)
        if r is None or r.get("error"):
            problems.append("%s: the executor failed: %s" % (h.name, (r or {}).get("error") or log))
            continue
        ent = {"name": h.name, "domain": h.what}
        for k in ("wall_s", "solver_s", "queries", "sat", "unsat", "unknown", "steps", "forks", "merges", "ends", "checks", "check_queries",
                  "timeout", "check_ids", "reached", "functions_all"):
            ent[k] = r[k]
        ent["inputs"] = r["vars"]
        unsup = sum(r["unsupported"].values())
        ent["paths_not_decided"] = unsup
        if unsup:
            ent["not_decided_because"] = [m[:300] for m in list(r["unsupported"])[:8]]
        cov["harnesses"].append(ent)
        cov["states"] += r["forks"] + r["merges"] + r["ends"]
        cov["transitions"] += r["steps"]
        queries += r["queries"]
        solver += r["solver_s"]
        fns.update(r["functions"])
        nats.update(r["natives"])
        # counterexamples, confirmed on the real code
        bad_ids = {}
        for v in r["violations"]:
            o = native(b, h.name, [v["asg"]], h.reps)
            o = o[0] if o else {"failed": [], "panicked": True, "reached": [], "vacuous": False, "shown": ["no output: crashed or hung"]}
            ids = set(o["failed"]) | ({"uncaught-panic"} if o["panicked"] else set())
            if not ids or o["vacuous"]:
                problems.append("%s: counterexample for %s does not fail natively: %s" % (h.name, v["id"], json.dumps(v["asg"])))
                continue
            bad_ids.setdefault(v["id"] if v["id"] in ids else sorted(ids)[0], (v["asg"], o))
        # inputs on which the executor had to give up
        if r["unsupported_models"]:
            ms = [m["asg"] for m in r["unsupported_models"]]
            for a, o in zip(ms, native(b, h.name, ms)):
                for i in list(o["failed"]) + (["uncaught-panic"] if o["panicked"] else []):
                    bad_ids.setdefault(i, (a, o))
        # the executor against the real code, on models and random inputs
        traces = [(e["asg"], set(e["reach"])) for e in r["ends_sample"]] + [(a, None) for a in r["pool"]]
        names = sorted(r["vars"])
        for _ in range(h.random):
            traces.append(({k: rnd.choice(list(domain(r["vars"][k]))) for k in names}, None))
        ok = 0
        outs = native(b, h.name, [a for a, _ in traces])
        if len(outs) != len(traces):
            problems.append("%s: %d native runs gave %d results" % (h.name, len(traces), len(outs)))
        for (a, reach), o in zip(traces, outs):
            if o["vacuous"]:
                continue
            f = list(o["failed"]) + (["uncaught-panic"] if o["panicked"] else [])
            for i in f:
                bad_ids.setdefault(i, (a, o))
            if reach is not None and len(reach) <= 2 and r["merges"] == 0 and reach != set(o["reached"]):
                problems.append("%s: executor reached %s, native code %s on %s" % (h.name, sorted(reach), o["reached"], json.dumps(a)))
            ok += 1
            if len(cov["samples"]) < 6 and o["shown"] and rnd.random() < 0.1:
                cov["samples"].append({"harness": h.name, "assignment": {k: x for k, x in a.items() if x}, "shown": o["shown"]})
        cov["traces_validated_against_impl"] += ok
        if not cov["samples"] and traces:
            cov["samples"].append({"harness": h.name, "assignment": traces[0][0]})
        for i, (a, o) in sorted(bad_ids.items()):
            if (prop, i) in kf:
                findings.append((i, kf[(prop, i)], o))
                continue
            violations.append((h.name, i, a, o))
        # vacuity
        if not r["checks"]:
            (incomplete if r["timeout"] or unsup else problems).append("%s: no check was reached" % h.name)
        if r["checks"] and not r["timeout"] and not unsup:
            for l in h.reach:
                if not r["reached"].get(l):
                    problems.append("%s: '%s' is never reached (vacuous)" % (h.name, l))
        if r["checks"] and len(problems) == before:
            decided += 1
        if r["timeout"] and not bad_ids:
            incomplete.append("%s: out of time after %d s; what was explored holds" % (h.name, r["wall_s"]))
        if unsup:
            incomplete.append("%s: %d paths left undecided (%s)" % (h.name, unsup, list(r["unsupported"])[0][:200]))
    cov["functions_encoded"] = sorted(fns)
    cov["library_models"] = len(nats)
    cov["solver_queries"] = queries
    cov["solver_s"] = round(solver, 3)
    cov["bounds"] = [h.what for h in hs]
    cov["outside_bounds"] = plan.outside
    cov["incomplete"] = incomplete
    cov["exhaustive"] = not incomplete and not problems
    cov["build_s"] = round(tb, 2)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": TIER, "seed": SEED, "level": "model_checking", "coverage": cov,
                   "assumptions": ASSUMPTIONS + plan.assumptions, "wall_s": round(time.time() - t0, 2),
                   "violations": len(violations), "problems": problems, "known_findings": [f[0] for f in findings]}, f, indent=1)
    for h in cov["harnesses"]:
        print("%-16s %s checks=%d queries=%d solver=%.1fs wall=%.1fs%s" % (h["name"], h["check_ids"], h["checks"], h["queries"], h["solver_s"], h["wall_s"],
              " TIMEOUT" if h["timeout"] else ""))
    for s in incomplete + ["not decided: " + p for p in problems]:
        print("INCOMPLETE: " + s)
    for i, k, o in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for n, (hn, i, a, o) in enumerate(violations):
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%s-%s.json" % (prop, hn, i))
        with open(path, "w") as f:
            json.dump({"property": prop, "harness": hn, "check": i, "assignment": a, "outcome": o,
                       "replay": "python3 %s %s" % (os.path.join(VERIF, "tool", "replay.py"), path)}, f, indent=1)
        for s in o["shown"]:
            print("  " + s)
        print("  check '%s' of %s fails" % (i, hn))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if violations:
        return 1
    if not decided or (problems and os.environ.get("MIRSYM_STRICT")):
        print("no answer: %d of %d harnesses decided" % (decided, len(hs)))
        return 2
    print("ok: %s holds on everything explored%s" % (prop, "" if not incomplete and not problems else " (see INCOMPLETE)"))
    return 0


sys.exit(main())
