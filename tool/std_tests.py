"""dev: std_tests.py [names…] runs harness/std (standard-library idioms) natively and in the executor"""
import sys, json, os, subprocess
sys.path.insert(0, os.path.dirname(__file__))
import build
from concurrent.futures import ThreadPoolExecutor
root = os.environ.get("STD_ROOT") or os.path.join(build.VERIF, "harness/std/main.rs")
os.environ["MIRSYM_ROOT"] = root
b = build.setup(native=False)
base, ext, meta, dk = build.deps("nat")
lib, jk = build.jst("nat", None, base, ext, meta, dk)
sr, sk = build.symrt("nat", None)
exe = "/tmp/std_native" + ("2" if "STD_ROOT" in os.environ else "")
key = build.hfiles([root])
if not build.fresh(exe + ".stamp", key):
    build.sh(["rustc"] + build.harness_cmd("nat", None, base, ext, (lib, sr)) + ["-o", exe])
    print(subprocess.run([exe], capture_output=True, text=True).stdout[:3000])
    build.done(exe + ".stamp", key)
names = sys.argv[1:] or subprocess.run([exe, "list"], capture_output=True, text=True).stdout.split()
def one(h):
    out = "/tmp/std_%s.json" % h
    extra = {"MIRSYM_MERGE": os.environ["MIRSYM_MERGE"]} if "MIRSYM_MERGE" in os.environ else {}
    rc = build.run_engine(b, h, out, int(os.environ.get("T", "30")), extra).wait()
    log = open(out + ".log").read()
    return h, None if rc else json.load(open(out)), log
bad = 0
with ThreadPoolExecutor(int(os.environ.get("J", "8"))) as ex:
    for h, r, log in ex.map(one, names):
        p = []
        if r is None:
            p = ["FAILED " + log[-500:]]
        else:
            if r.get("error"): p.append("ERROR " + r["error"])
            if r.get("timeout"): p.append("TIMEOUT")
            p += ["VIOL %s %s %s" % (v["id"], v["msg"][:300], v["asg"]) for v in r.get("violations", [])[:2]]
            p += ["UNSUP %s" % m[:420] for m in list(r.get("unsupported", []))[:3]]
            if "end" not in r.get("reached", []) and not p: p.append("NOT REACHED")
        if p:
            bad += 1
            print("==", h, "; ".join(p))
        if os.environ.get("LOG"): print(log[-int(os.environ["LOG"]):])
print(len(names), "tests", bad, "bad")
