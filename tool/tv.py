"""runs all tv_* harnesses (see gen_tv.py), printing unsupported messages grouped"""
import sys, json, os, re, collections
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(__file__))
os.environ["MIRSYM_ROOT"] = "/tmp/tv/main.rs"
import build
b = build.setup(native=False)
names = re.findall(r"pub fn (tv_\w+)\(", open("/tmp/tv/main.rs").read())
names = [n for n in names if n != "tv_all" and (len(sys.argv) < 2 or sys.argv[1] in n)]
def one(n):
    out = "/tmp/tv/%s.json" % n
    p = build.run_engine(b, n, out, 60)
    rc = p.wait()
    if rc: return n, {"err": open(out + ".log").read()[:600]}
    return n, json.load(open(out))
g = collections.Counter(); okc = 0; ex1 = {}
with ThreadPoolExecutor(8) as ex:
    for n, r in ex.map(one, names):
        if "err" in r: k="ERR "+r["err"][:200]; g[k]+=1; ex1.setdefault(k,(n,"")); continue
        for m in r["unsupported"]: k = " <- ".join(m.split(" <- ")[:2 if len(m.split(" @ ")[0]) < 400 else 1])[:500]; g[k] += 1; ex1.setdefault(k, (n, m))
        for v in r["violations"]: print(n, "VIOL", v["id"], v["msg"])
        if not r["unsupported"] and not r["violations"]: okc += 1
for m, c in g.most_common(12): print(c, m, "\n    e.g.", ex1[m][0])
print("ok", okc, "of", len(names))
