"""dev: eng.py h1 h2 ... runs harnesses in the engine"""
import sys, json, os
sys.path.insert(0, os.path.dirname(__file__))
import build
from concurrent.futures import ThreadPoolExecutor
b = build.setup(native=True)
def one(h):
    out = "/tmp/eng_%s.json" % h
    p = build.run_engine(b, h, out, int(os.environ.get("T", "120")))
    rc = p.wait()
    log = open(out + ".log").read()[-int(os.environ.get("LOG", "600")):]
    return h, None if rc else json.load(open(out)), log
K = ["wall_s", "solver_s", "queries", "unknown", "steps", "forks", "merges", "merge_fail", "ends", "checks", "terms"]
with ThreadPoolExecutor(8) as ex:
    for h, r, log in ex.map(one, sys.argv[1:]):
        if r is None:
            print("==", h, "FAILED"); print(log); continue
        print("==", h, "TIMEOUT" if r["timeout"] else "", r.get("error", ""), " ".join("%s=%s" % (k.replace("_s", ""), r[k]) for k in K))
        if log and os.environ.get("LOG"): print(log)
        print("  checks", r["check_ids"], "reached", r["reached"])
        if r["violations"]: print("  VIOL", [(v["id"], v["msg"][:200]) for v in r["violations"]][:8])
        for m, c in list(r["unsupported"].items())[:4]: print("  UNSUP", c, m[:500])
        for k in ("ends_sample", "functions", "natives", "vars"):
            if k in os.environ.get("SHOW", ""): print(k, r[k])
