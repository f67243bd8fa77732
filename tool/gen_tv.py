"""Translator validation: run the repository's own test cases through the symbolic engine (concretely) and compare
with their recorded outputs. Development aid: MIRSYM_ROOT=/tmp/tv/main.rs python3 tool/eng.py tv_all"""
import json, glob, os, csv, random
os.makedirs("/tmp/tv", exist_ok=True)
def ctx(c):
    f = []
    for k, v in (c or {}).items():
        f.append((k, v))
    return f
o = ["use serde_json::{json, Value};"]
names = []
def J(v): return "json!(%s)" % json.dumps(v, ensure_ascii=False)
for fn in sorted(glob.glob("/repo/tests/resources/translate/*.json")):
    for t in json.load(open(fn))["tests"]:
        n = t["name"]; d = t["test"]
        c = d.get("context") or {}
        fields = []
        rm = c.get("resolve_method", "Cast")
        fields.append("resolve_method: jst::ResolveMethod::%s" % rm.capitalize())
        for k in c:
            if k == "json_object_path_regex": fields.append("json_object_path_regex: Some(%s.to_string())" % json.dumps(c[k]))
            elif k != "resolve_method": fields.append("%s: %s" % (k, json.dumps(c[k])))
        cx = "jst::Context { %s, ..Default::default() }" % ", ".join(fields)
        for w in ("avro", "bigquery"):
            f = "tv_%s_%s" % (w, n)
            pan = bool(d.get("%s" % w) is None)
            names.append(f)
            o.append("pub fn %s() { let r = symrt::catch(|| jst::convert_%s(&%s, %s)); match r { Ok(v) => { if v != %s { symrt::check(false, \"%s\") } else { symrt::reach(\"ok\") } }, Err(_) => symrt::check(false, \"panic %s\") } }" % (f, w, J(d["json"]), cx, J(d[w]), f, f))
rows = []
for fn in glob.glob("/repo/tests/resources/casing/*.csv"):
    r = [x.strip().split(",") for x in open(fn) if x.strip()]
    random.seed(1); random.shuffle(r); rows += r[:60]
o.append("pub fn tv_case() { let t: Vec<(&str,&str)> = vec![%s]; for (a,b) in t { if jst::casing::to_snake_case(a) != b { symrt::check(false, a) } else { symrt::reach(\"case\") } } }" % ",".join("(%s,%s)" % (json.dumps(a), json.dumps(b)) for a, b in rows))
names.append("tv_case")
o.append("pub fn tv_all() { %s }" % " ".join(n + "();" for n in names))
o.append("fn main() {}")
open("/tmp/tv/main.rs", "w").write("\n".join(o))
print(len(names))
