"""dev: replay violations of the last eng.py run natively.  cex.py <harness> [n]"""
import sys, json, subprocess, os
sys.path.insert(0, os.path.dirname(__file__))
import build
b = build.setup(symbolic=False)
h = sys.argv[1]
r = json.load(open("/tmp/eng_%s.json" % h))
for v in r["violations"][: int(sys.argv[2]) if len(sys.argv) > 2 else 3]:
    json.dump(v["asg"], open("/tmp/asg.json", "w"))
    o = json.loads(subprocess.run([b["replay"], h, "/tmp/asg.json"], capture_output=True, text=True).stdout)
    print(v["id"], v["msg"], {k: x for k, x in v["asg"].items() if x and k.startswith("ctx")}, {k: o[k] for k in o if k != "shown"})
    for s in o["shown"]: print("   ", s)
