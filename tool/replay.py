"""replay.py <file>: runs a saved counterexample against the real code (rebuilt from /repo)"""
import json, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
r = json.load(open(sys.argv[1]))
b = build.setup(symbolic=False)
with tempfile.NamedTemporaryFile("w", suffix=".json") as f:
    json.dump(r["assignment"], f)
    f.flush()
    out = subprocess.run([b["replay"], r["harness"], f.name], stdout=subprocess.PIPE, text=True, env=dict(os.environ, MIRSYM_REPS="64")).stdout
print(out)
o = [json.loads(l) for l in out.splitlines() if l.startswith("{")]
sys.exit(1 if not o or o[0]["failed"] or o[0]["panicked"] else 0)
