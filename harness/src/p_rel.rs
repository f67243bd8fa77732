//! Relations between conversions
use crate::gen::*;
use crate::props::*;
use crate::spec;
use crate::valid;
use jst::{Context, ResolveMethod};
use serde_json::{json, Value};

harnesses!(
    c18_shapes, c18_deep, c18_names, //
    c19_shapes, c19_deep, c19_names, //
    c20_sibling_avro, c20_sibling_bq, c20_extra_avro, c20_extra_bq, c20_order, //
    c21_avro, c21_bq, c21_deep_avro, c21_deep_bq, c21_tuple, c21_union_avro, c21_union_bq, c21_array_of_maps, //
    c22_avro, c22_bq, c22_union, //
    c23_avro, c23_bq, c23_deep, //
    c24_type, c24_shape, c24_nested, //
    c25_tuple, c25_maps, c25_case, c25_regex, c25_resolve, //
    c26_bq, c26_avro, c26_items, c26_below_avro, c26_below_bq,
);

fn d1_all() -> Value {
    w1(any_kinds())
}

// C18 both formats describe the same table
pub fn common(v: &Value, c: &Context) {
    symrt::show_json("schema", v);
    if let (Some(a), Some(b)) = (avro(v, c), bq(v, c)) {
        let x = valid::avro_common(&a);
        let root = match &a {
            // the root record has no null to speak of
            Value::Array(u) => u[1].clone(),
            _ => a.clone(),
        };
        if root["type"] == "record" {
            let y = valid::bq_common(&b);
            symrt::show_json("x", &x);
            symrt::show_json("y", &y);
            symrt::check(x == y, "same-columns");
        } else {
            let mut w = json!({"type": "record", "fields": [{"name": "root", "type": 0}]});
            w["fields"][0]["type"] = a.clone();
            let x = valid::avro_common(&w);
            let y = valid::bq_common(&b);
            symrt::show_json("x", &x);
            symrt::show_json("y", &y);
            symrt::check(x == y, "same-root");
        }
    }
}
fn no_null() -> Vec<Value> {
    let mut v = atoms();
    v.push(json!({"type": ["integer", "null"]}));
    v.push(json!({"type": ["string", "integer"]}));
    v.push(json!({}));
    v.push(json!({"type": "object"}));
    v.push(json!({"type": "array"}));
    v.push(json!({"type": "object", "properties": {}}));
    v.push(json!({"type": "object", "properties": {"x": {"type": "integer"}, "y": {"type": ["string", "null"]}}, "required": ["x", "y"]}));
    v.push(json!({"type": "object", "additionalProperties": {"type": "integer"}}));
    v.push(json!({"type": "array", "items": {"type": "integer"}}));
    v.push(json!({"type": ["array", "null"], "items": {"type": ["array", "null"], "items": {"type": "string"}}}));
    v.push(json!({"type": "array", "items": [{"type": "string"}, {}], "additionalItems": false, "minItems": 1}));
    v
}
fn c18_shapes() {
    used();
    let c = Context { normalize_case: symrt::any_bool("ctx.normalize_case"), force_nullable: false, tuple_struct: symrt::any_bool("ctx.tuple_struct"), ..Context::default() };
    let a = symrt::pick("s.0", no_null());
    let b = symrt::pick("s.1", no_null());
    let v = node(&g(no_null(), any_kinds()), "s", a, b);
    // see c21_array_of_maps
    symrt::assume(!((v["type"] == "array" || v["type"][1] == "array") && v["items"].get("additionalProperties").is_some()));
    common(&v, &c);
}
fn c18_deep() {
    let leaf = symrt::pick("leaf", vec![json!({"type": "integer"}), json!({"type": ["integer", "null"]}), json!({})]);
    let mut gg = g(vec![json!({"type": "integer"}), json!({"type": "string"})], vec![OBJ, NOBJ, MAP, ONEOF]);
    gg.opt_required = false;
    let v = chain(&gg, "s", 2, leaf);
    let v = if symrt::any_bool("list") { json!({"type": "object", "properties": {"l": {"type": "array", "items": {"type": "object", "properties": {"v": v}}}}}) } else { v };
    common(&v, &Context::default());
}
fn c18_names() {
    let n = symrt::any_string("name", 0, 2, "  --..09AZ__azz~");
    let mut v = json!({"type": "object", "properties": {"x": {"type": "integer"}}});
    v["properties"][&n] = json!({"type": "object", "properties": {"y": {"type": "string"}}});
    common(&v, &Context { normalize_case: symrt::any_bool("ctx.normalize_case"), ..Context::default() });
}

// C19 the full name of every record is its path
fn paths(v: &Value, here: &str, out: &mut bool) {
    match v {
        Value::Array(u) => {
            for x in u {
                paths(x, here, out);
            }
        }
        _ => match v["type"].as_str() {
            Some("array") => {
                // a list in a list is wrapped in a record that has the name of the outer list
                let it = &v["items"];
                let list = match it["fields"].as_array() {
                    Some(f) => f.len() == 1 && f[0]["name"] == "list" && full(it) == here,
                    _ => false,
                };
                if list {
                    paths(&it["fields"][0]["type"], &format!("{}.list", here), out)
                } else {
                    paths(it, &format!("{}.list", here), out)
                }
            }
            Some("map") => paths(&v["values"], &format!("{}.value", here), out),
            Some("record") => {
                *out = *out & (full(v) == here);
                if let Value::Array(fs) = &v["fields"] {
                    for f in fs {
                        let p = format!("{}.{}", here, f["name"].as_str().unwrap_or("?"));
                        paths(&f["type"], &p, out);
                    }
                }
            }
            _ => {}
        },
    }
}
pub fn full(v: &Value) -> String {
    match v["namespace"].as_str() {
        Some(ns) => format!("{}.{}", ns, v["name"].as_str().unwrap_or("?")),
        None => v["name"].as_str().unwrap_or("?").to_string(),
    }
}
pub fn only_path(v: &Value, c: &Context) {
    symrt::show_json("schema", v);
    if let Some(o) = avro(v, c) {
        let mut ok = true;
        paths(&o, "root", &mut ok);
        symrt::check(ok, "name-is-path");
    }
}
pub fn named_by_path(v: &Value, c: &Context) {
    symrt::show_json("schema", v);
    if let Some(o) = avro(v, c) {
        let mut ok = true;
        paths(&o, "root", &mut ok);
        symrt::check(ok, "name-is-path");
        let mut names = vec![];
        valid::avro_full_names(&o, &mut names);
        symrt::check(valid::distinct(&names), "names-distinct");
    }
}
fn recs() -> Vec<Value> {
    vec![json!({"type": "integer"}), json!({"type": "object", "properties": {"a": {"type": "integer"}}}), json!({"type": "object", "properties": {"b": {"type": "object", "properties": {"a": {"type": "integer"}}}}})]
}
fn c19_shapes() {
    named_by_path(&schema(&g(recs(), any_kinds()), "s", 1), &ctx());
}
fn c19_deep() {
    let leaf = symrt::pick("leaf", recs());
    let mut gg = g(vec![json!({"type": "object", "properties": {"a": {"type": "integer"}}})], vec![OBJ, NOBJ, ARR, MAP, ONEOF, TUP]);
    gg.opt_required = false;
    only_path(&chain(&gg, "s", 3, leaf), &Context { tuple_struct: true, force_nullable: symrt::any_bool("ctx.force_nullable"), ..Context::default() });
}
fn c19_names() {
    used();
    let n = symrt::any_string("name", 0, 2, "  --..09AZ__azz~");
    let mut v = json!({"type": "object", "properties": {}});
    v["properties"][&n] = json!({"type": "object", "properties": {"y": {"type": "object", "properties": {"z": {"type": "integer"}}}}});
    named_by_path(&v, &Context { normalize_case: symrt::any_bool("ctx.normalize_case"), ..Context::default() });
}

// C20 independence
fn sib() -> Vec<Value> {
    let mut v = wide();
    v.push(json!({"type": "object", "properties": {"a": {"type": "integer"}}, "required": ["a"]}));
    v.push(json!({"type": "object", "properties": {"b": {"type": "integer"}}, "required": ["b"]}));
    v
}
fn siblings() -> (Value, Value) {
    let a = symrt::pick("a", sib());
    let b = symrt::pick("b", sib());
    let mut both = json!({"type": "object", "properties": {"a": a.clone(), "b": b}});
    let mut one = json!({"type": "object", "properties": {"a": a}});
    if symrt::any_bool("req-a") {
        one["required"] = json!(["a"]);
        both["required"] = json!(["a", "b"]);
    } else if symrt::any_bool("req-b") {
        both["required"] = json!(["b"]);
    }
    (both, one)
}
pub fn lens() -> Context {
    Context { resolve_method: symrt::pick("ctx.resolve", vec![ResolveMethod::Cast, ResolveMethod::Drop]), force_nullable: symrt::any_bool("ctx.force_nullable"), ..Context::default() }
}
fn c20_sibling_avro() {
    let (both, one) = siblings();
    let c = lens();
    symrt::show_json("schema", &both);
    let (x, y) = (avro(&both, &c), avro(&one, &c));
    if let Some(x) = &x {
        let y = y.unwrap_or(Value::Null);
        symrt::check(valid::column(x, "a") == valid::column(&y, "a"), "avro-column-independent");
    } else {
        symrt::check(y.is_none(), "avro-column-lost");
    }
}
fn c20_sibling_bq() {
    let (both, one) = siblings();
    let c = lens();
    symrt::show_json("schema", &both);
    let (x, y) = (bq(&both, &c), bq(&one, &c));
    if let Some(x) = &x {
        let y = y.unwrap_or(Value::Null);
        symrt::check(valid::column(x, "a") == valid::column(&y, "a"), "bigquery-column-independent");
    } else {
        symrt::check(y.is_none(), "bigquery-column-lost");
    }
}
/// keywords that constrain values but not the structure
fn extra() -> (Value, Value) {
    let v = schema(&g(few(), vec![LEAF, OBJ, ARR, MAP, ONEOF]), "s", 1);
    let mut w = v.clone();
    let kv = symrt::pick(
        "keyword",
        vec![
            ("default", json!(null)),
            ("default", json!({"type": "string"})),
            ("examples", json!([1, "x"])),
            ("enum", json!([1, 2])),
            ("const", json!("x")),
            ("minimum", json!(0)),
            ("maximum", json!(10)),
            ("pattern", json!("^x")),
            ("minLength", json!(1)),
            ("$id", json!("http://x/y")),
            ("$schema", json!("http://json-schema.org/draft-04/schema#")),
            ("$comment", json!("c")),
            ("definitions", json!({"x": {"type": "string"}})),
            ("uniqueItems", json!(true)),
            ("minProperties", json!(1)),
            ("dependencies", json!({"a": ["b"]})),
            ("contains", json!({"type": "integer"})),
            ("propertyNames", json!({"pattern": "^a"})),
            ("readOnly", json!(true)),
            ("format", json!("email")),
            ("mozPipelineMetadata", json!({"bq_table": "x"})),
            ("anyOf", json!([{"required": ["a"]}])),
            ("name", json!("n")),
            ("mode", json!("REPEATED")),
            ("nullable", json!(true)),
            ("fields", json!([])),
            ("data_type", json!("string")),
            ("namespace", json!("x")),
        ],
    );
    match symrt::any_choice("where", 2) {
        0 => w[kv.0] = kv.1,
        _ => {
            symrt::assume(w.get("properties").is_some());
            symrt::assume(w["properties"].get("a").is_some());
            w["properties"]["a"][kv.0] = kv.1;
        }
    }
    (v, w)
}
fn c20_extra_avro() {
    let (v, w) = extra();
    let c = Context { resolve_method: resolve("ctx.resolve"), ..Context::default() };
    symrt::show_json("schema", &w);
    symrt::check(avro(&v, &c) == avro(&w, &c), "avro-unchanged");
}
fn c20_extra_bq() {
    let (v, w) = extra();
    let c = Context { resolve_method: resolve("ctx.resolve"), ..Context::default() };
    symrt::show_json("schema", &w);
    symrt::check(bq(&v, &c) == bq(&w, &c), "bigquery-unchanged");
}
/// columns are sorted by name
fn c20_order() {
    let n = symrt::any_string("n", 1, 2, "AZ__az");
    let m = symrt::any_string("m", 1, 2, "AZ__az");
    symrt::assume(n != m);
    let mut v = json!({"type": "object", "properties": {}});
    v["properties"][&n] = json!({"type": "integer"});
    v["properties"][&m] = json!({"type": "integer"});
    let c = Context::default();
    let sorted = |fs: &Value| match fs.as_array() {
        Some(fs) => fs.len() == 2 && fs[0]["name"].as_str() < fs[1]["name"].as_str(),
        _ => false,
    };
    if let (Some(a), Some(b)) = (avro(&v, &c), bq(&v, &c)) {
        symrt::check(sorted(&a["fields"]), "avro-sorted");
        symrt::check(sorted(&b), "bigquery-sorted");
    }
}

// C21 every valid document can be stored
fn scalar(l: &str) -> Value {
    symrt::pick(l, vec![json!(null), json!(true), json!(1), json!(1.5), json!("s")])
}
fn doc1(l: &str) -> Value {
    match symrt::any_choice(&lbl(l, "kind"), 3) {
        0 => scalar(&lbl(l, "v")),
        1 => {
            let mut d = json!({});
            if symrt::any_bool(&lbl(l, "a")) {
                d["a"] = scalar(&lbl(l, "a.v"));
            }
            if symrt::any_bool(&lbl(l, "b")) {
                d["b"] = scalar(&lbl(l, "b.v"));
            }
            d
        }
        _ => {
            let mut d = vec![];
            if symrt::any_bool(&lbl(l, "0")) {
                d.push(scalar(&lbl(l, "0.v")));
            }
            if symrt::any_bool(&lbl(l, "1")) {
                d.push(scalar(&lbl(l, "1.v")));
            }
            Value::Array(d)
        }
    }
}
fn doc2(l: &str) -> Value {
    match symrt::any_choice(&lbl(l, "outer"), 3) {
        0 => doc1(&lbl(l, "d")),
        1 => {
            let mut d = json!({});
            if symrt::any_bool(&lbl(l, "oa")) {
                d["a"] = doc1(&lbl(l, "d"));
            }
            if symrt::any_bool(&lbl(l, "ob")) {
                d["b"] = scalar(&lbl(l, "ob.v"));
            }
            d
        }
        _ => json!([doc1(&lbl(l, "d"))]),
    }
}
fn stores_avro(v: &Value, d: &Value, c: &Context) {
    symrt::show_json("schema", v);
    symrt::show_json("document", d);
    symrt::assume(valid::validates(v, d));
    if let Some(o) = avro(v, c) {
        symrt::check(valid::avro_takes(&o, d), "avro-stores");
    }
}
/// a root that is not a record is the column "root"
fn rooted(o: &Value, d: &Value) -> Value {
    let single = match o {
        Value::Array(fs) => fs.len() == 1 && fs[0]["name"] == "root",
        _ => false,
    };
    if single {
        let mut w = json!({});
        w["root"] = d.clone();
        w
    } else {
        d.clone()
    }
}
fn stores_bq(v: &Value, d: &Value, c: &Context) {
    symrt::show_json("schema", v);
    symrt::show_json("document", d);
    symrt::assume(valid::validates(v, d));
    if let Some(o) = bq(v, c) {
        let d = rooted(&o, d);
        // a null root of a nullable record is no row at all
        if !(d.is_null()) {
            symrt::check(valid::bq_takes(&o, &d), "bigquery-stores");
        }
    }
}
fn dctx() -> Context {
    Context { resolve_method: symrt::pick("ctx.resolve", vec![ResolveMethod::Cast, ResolveMethod::Drop]), force_nullable: symrt::any_bool("ctx.force_nullable"), allow_maps_without_value: symrt::any_bool("ctx.allow_maps"), ..Context::default() }
}
fn dleaves() -> Vec<Value> {
    vec![
        json!({"type": "boolean"}),
        json!({"type": "integer"}),
        json!({"type": "number"}),
        json!({"type": "string"}),
        json!({"type": "null"}),
        json!({"type": ["integer", "null"]}),
        json!({"type": ["string", "number"]}),
        json!({}),
    ]
}
fn dschema() -> Value {
    schema(&g(dleaves(), vec![LEAF, OBJ, NOBJ, ARR, MAP, ONEOF]), "s", 1)
}
fn c21_avro() {
    stores_avro(&dschema(), &doc1("d"), &dctx());
}
fn c21_bq() {
    stores_bq(&dschema(), &doc1("d"), &dctx());
}
fn ddeep() -> Value {
    let inner = schema(&g(vec![json!({"type": "integer"}), json!({"type": ["integer", "null"]}), json!({})], vec![OBJ, ARR, ONEOF]), "s", 1);
    match symrt::any_choice("outer", 3) {
        0 => json!({"type": "object", "properties": {"a": inner}, "required": ["a"]}),
        1 => json!({"type": "object", "properties": {"a": inner, "b": {"type": "string"}}, "required": ["b"]}),
        _ => json!({"type": "array", "items": inner}),
    }
}
fn c21_deep_avro() {
    stores_avro(&ddeep(), &doc2("d"), &Context::default());
}
fn c21_deep_bq() {
    stores_bq(&ddeep(), &doc2("d"), &Context::default());
}
fn c21_tuple() {
    let l = vec![json!({"type": "integer"}), json!({"type": ["string", "null"]})];
    let mut v = json!({"type": "array", "items": [symrt::pick("i0", l.clone()), symrt::pick("i1", l)], "minItems": 1, "maxItems": 2});
    v["minItems"] = symrt::pick("min", vec![json!(0), json!(1), json!(2)]);
    if symrt::any_bool("add") {
        v["additionalItems"] = json!({"type": "integer"});
        v["maxItems"] = json!(3);
    } else {
        v["additionalItems"] = json!(false);
    }
    let d = doc1("d");
    let w = json!({"type": "object", "properties": {"t": v}});
    let mut e = json!({});
    e["t"] = d;
    let c = Context { tuple_struct: true, ..Context::default() };
    stores_avro(&w, &e, &c);
    stores_bq(&w, &e, &c);
}
/// objects under oneOf
fn dunion() -> Value {
    let l = vec![json!({"type": "integer"}), json!({"type": "number"}), json!({"type": "string"}), json!({"type": ["integer", "null"]})];
    let gg = g(l.clone(), vec![]);
    let a = obj(&gg, "A", symrt::pick("a0", l.clone()), symrt::pick("a1", l.clone()));
    let b = obj(&gg, "B", symrt::pick("b0", l.clone()), symrt::pick("b1", l));
    json!({"oneOf": [a, b]})
}
fn d_obj() -> Value {
    let mut d = json!({});
    if symrt::any_bool("d.a") {
        d["a"] = scalar("d.a.v");
    }
    if symrt::any_bool("d.b") {
        d["b"] = scalar("d.b.v");
    }
    d
}
/// a property that only one alternative describes is not constrained by the other
fn closed(v: &Value, d: &Value) {
    // documents have only the properties of the alternative they match
    let mut any = false;
    if let Value::Array(alts) = &v["oneOf"] {
        for a in alts {
            let mut r = valid::validates(a, d);
            if let Value::Object(m) = d {
                for (k, _) in m {
                    r = r & a["properties"].get(k).is_some();
                }
            }
            any = any | r;
        }
    }
    symrt::assume(any);
}
fn c21_union_avro() {
    let (v, d) = (dunion(), d_obj());
    closed(&v, &d);
    stores_avro(&v, &d, &Context::default());
}
fn c21_union_bq() {
    let (v, d) = (dunion(), d_obj());
    closed(&v, &d);
    stores_bq(&v, &d, &Context::default());
}
/// BigQuery: a list of maps needs a level of its own
fn c21_array_of_maps() {
    let v = json!({"type": "object", "properties": {"a": {"type": "array", "items": {"type": "object", "additionalProperties": symrt::pick("v", vec![json!({"type": "integer"}), json!({"type": "string"})])}}}});
    if let Some(o) = bq(&v, &Context::default()) {
        symrt::show_json("schema", &v);
        let f = &o[0]["fields"];
        let wrapped = f[0]["mode"] == "REPEATED" && f[0]["fields"][0]["name"] == "key";
        symrt::check(wrapped, "bigquery-array-of-maps");
    }
}

// C22 the root
fn roots() -> Value {
    let mut v = w1(any_kinds());
    if symrt::any_bool("text") {
        v["title"] = json!("t");
        v["description"] = json!("d");
    }
    v
}
fn c22_avro() {
    used();
    let (v, c) = (roots(), ctx());
    symrt::show_json("schema", &v);
    let want = want_avro(&v, &c);
    let got = avro(&v, &c);
    if let Some(o) = &got {
        let r = match o {
            Value::Array(u) => &u[1],
            _ => o,
        };
        if r["type"] == "record" {
            symrt::check(r["name"] == "root" && r.get("namespace").is_none(), "avro-root-name");
        }
    }
    agree(want.map(|x| head(&x)), got.map(|x| head(&x)), "avro-root");
}
pub fn head(v: &Value) -> Value {
    match v {
        Value::Array(u) => json!(["null", u[1]["type"]]),
        _ => v["type"].clone(),
    }
}
fn c22_bq() {
    used();
    let (v, c) = (roots(), ctx());
    symrt::show_json("schema", &v);
    let want = want_bq(&v, &c);
    let got = bq(&v, &c);
    if let Some(o) = &got {
        symrt::check(o.is_array(), "bigquery-list");
    }
    agree(want.map(|x| heads(&x)), got.map(|x| heads(&x)), "bigquery-root");
}
pub fn heads(v: &Value) -> Value {
    let mut out = vec![];
    if let Value::Array(fs) = v {
        for f in fs {
            let mut o = f.clone();
            o["fields"] = json!(0);
            out.push(o);
        }
    }
    Value::Array(out)
}
/// a union at the root
fn c22_union() {
    let l = crate::p_union::alts();
    let v = json!({"oneOf": [symrt::pick("a", l.clone()), symrt::pick("b", l)]});
    let c = lens();
    eq_avro(&v, &c);
    eq_bq(&v, &c);
}

// C23 force_nullable
fn c23_avro() {
    used();
    let (v, c) = (d1_all(), ctx());
    symrt::show_json("schema", &v);
    let off = avro(&v, &Context { force_nullable: false, ..c.clone() });
    let on = avro(&v, &Context { force_nullable: true, ..c });
    symrt::check(on == off.map(|x| valid::avro_forced(&x)), "avro-only-nullability");
}
fn c23_bq() {
    used();
    let (v, c) = (d1_all(), ctx());
    symrt::show_json("schema", &v);
    let off = bq(&v, &Context { force_nullable: false, ..c.clone() });
    let on = bq(&v, &Context { force_nullable: true, ..c });
    symrt::check(on == off.map(|x| valid::bq_forced(&x)), "bigquery-only-nullability");
}
fn c23_deep() {
    let leaf = symrt::pick("leaf", vec![json!({"type": "integer"}), json!({"type": ["integer", "null"]}), json!({})]);
    let mut gg = g(vec![json!({"type": "integer"}), json!({"type": "null"})], vec![OBJ, NOBJ, ARR, MAP, ONEOF, TUP]);
    gg.opt_required = false;
    let v = chain(&gg, "s", 2, leaf);
    let c = Context { tuple_struct: true, ..Context::default() };
    let d = Context { tuple_struct: true, force_nullable: true, ..Context::default() };
    symrt::show_json("schema", &v);
    symrt::check(avro(&v, &d) == avro(&v, &c).map(|x| valid::avro_forced(&x)), "avro-only-nullability");
    symrt::check(bq(&v, &d) == bq(&v, &c).map(|x| valid::bq_forced(&x)), "bigquery-only-nullability");
}

// C24 malformed schemas
pub fn rejects(v: &Value) {
    symrt::show_json("schema", v);
    let c = ctx();
    symrt::check(avro(v, &c).is_none(), "avro-rejects");
    symrt::check(bq(v, &c).is_none(), "bigquery-rejects");
}
fn place(l: &str, bad: Value) -> Value {
    match symrt::any_choice(l, 7) {
        0 => bad,
        1 => json!({"type": "object", "properties": {"a": bad, "b": {"type": "integer"}}}),
        2 => json!({"type": "array", "items": bad}),
        3 => json!({"type": "object", "additionalProperties": bad}),
        4 => json!({"type": "object", "patternProperties": {"^x": bad}}),
        5 => json!({"oneOf": [{"type": "integer"}, bad]}),
        _ => json!({"type": "object", "properties": {"a": {"type": "object", "properties": {"b": bad}}}}),
    }
}
/// type names that do not exist
fn c24_type() {
    let t = symrt::any_string("type", 0, 4, "azAZ");
    symrt::assume(t != "null");
    let mut bad = json!({});
    if symrt::any_bool("list") {
        bad["type"] = json!(["integer", t]);
    } else {
        bad["type"] = json!(t);
    }
    let v = if symrt::any_bool("nested") { json!({"type": "object", "properties": {"a": bad}}) } else { bad };
    rejects(&v);
}
fn bads() -> Vec<Value> {
    vec![
        json!({"type": "strin"}),
        json!({"type": "INTEGER"}),
        json!({"type": ["integer", "any"]}),
        json!({"type": [5]}),
        json!({"type": "object", "properties": 5}),
        json!({"type": "object", "properties": ["a"]}),
        json!({"type": "object", "properties": {"a": 5}}),
        json!({"type": "object", "properties": {"a": {}}, "required": "a"}),
        json!({"type": "object", "properties": {"a": {}}, "required": [1]}),
        json!({"type": "object", "patternProperties": [1]}),
        json!({"type": "integer", "title": 5}),
        json!({"type": "integer", "description": ["x"]}),
        json!({"type": "string", "format": 5}),
        json!({"oneOf": {"type": "integer"}}),
        json!({"oneOf": [5]}),
        json!({"allOf": 5}),
    ]
}
fn c24_shape() {
    rejects(&symrt::pick("bad", vec![json!(null), json!(true), json!(5), json!("object"), json!([]), json!([{"type": "integer"}])]));
}
fn c24_nested() {
    rejects(&place("at", symrt::pick("bad", bads())));
}

// C25 an option changes only what it is for
fn no_tuple() -> Value {
    let mut l = wide();
    l.pop();
    let a = symrt::pick("s.0", l.clone());
    let b = symrt::pick("s.1", second());
    node(&g(l, vec![LEAF, OBJ, NOBJ, ARR, MAP, PAT, ONEOF]), "s", a, b)
}
fn c25_tuple() {
    used();
    let (v, c) = (no_tuple(), ctx());
    symrt::show_json("schema", &v);
    let off = Context { tuple_struct: false, ..c.clone() };
    let on = Context { tuple_struct: true, ..c };
    symrt::check(avro(&v, &on) == avro(&v, &off), "avro-tuple-option");
    symrt::check(bq(&v, &on) == bq(&v, &off), "bigquery-tuple-option");
}
fn c25_maps() {
    used();
    let (v, c) = (d1_all(), ctx());
    symrt::show_json("schema", &v);
    let off = Context { allow_maps_without_value: false, ..c.clone() };
    let on = Context { allow_maps_without_value: true, ..c.clone() };
    symrt::check(avro(&v, &on) == avro(&v, &off), "avro-map-option");
    let (x, y) = (bq(&v, &on), bq(&v, &off));
    if let ResolveMethod::Drop = c.resolve_method {
        // only adds columns
        if let (Some(x), Some(y)) = (&x, &y) {
            symrt::check(valid::bq_sub(y, x), "bigquery-map-option-adds");
        } else {
            symrt::check(y.is_none(), "bigquery-map-option-loses");
        }
    } else {
        symrt::check(x == y, "bigquery-map-option");
    }
}
/// names that are in snake_case already
fn c25_case() {
    used();
    let (v, c) = (d1_all(), ctx());
    symrt::show_json("schema", &v);
    let off = Context { normalize_case: false, ..c.clone() };
    let on = Context { normalize_case: true, ..c };
    symrt::check(avro(&v, &on) == avro(&v, &off), "avro-case-option");
    symrt::check(bq(&v, &on) == bq(&v, &off), "bigquery-case-option");
}
fn c25_regex() {
    used();
    let (v, c) = (d1_all(), ctx());
    let m = 1 + symrt::any_choice("pattern", spec::PATTERNS.len() - 1);
    symrt::show_json("schema", &v);
    let on = Context { json_object_path_regex: Some(spec::PATTERNS[m].to_string()), ..c.clone() };
    symrt::check(avro(&v, &on) == avro(&v, &c), "avro-regex-option");
    if !matches!(c.resolve_method, ResolveMethod::Cast) {
        return;
    }
    // JSON instead of STRING, nothing else
    let back = bq(&v, &on).map(|x| no_json(&x));
    symrt::check(back == bq(&v, &c), "bigquery-regex-option");
}
pub fn no_json(v: &Value) -> Value {
    let mut out = vec![];
    if let Value::Array(fs) = v {
        for f in fs {
            let mut o = f.clone();
            if f["type"] == "JSON" {
                o["type"] = json!("STRING");
            }
            if let Some(x) = f.get("fields") {
                o["fields"] = no_json(x);
            }
            out.push(o);
        }
    }
    Value::Array(out)
}
/// without anything under-specified every resolve method gives the same
fn c25_resolve() {
    used();
    let mut l = atoms();
    l.push(json!({"type": ["integer", "null"]}));
    l.push(json!({"type": "object", "properties": {"x": {"type": "integer"}}, "required": ["x"]}));
    let v = schema(&g(l, any_kinds()), "s", 1);
    let c = Context { tuple_struct: true, ..ctx() };
    symrt::show_json("schema", &v);
    let n = match spec::table(&v, &c) {
        Ok(n) => n,
        Err(_) => return,
    };
    symrt::assume(!spec::under_bq(&n));
    let d = Context { resolve_method: ResolveMethod::Cast, ..c.clone() };
    let x = avro(&v, &c);
    symrt::check(x.is_some(), "avro-well-specified");
    symrt::check(x == avro(&v, &d), "avro-resolve-option");
    let y = bq(&v, &c);
    symrt::check(y.is_some(), "bigquery-well-specified");
    symrt::check(y == bq(&v, &d), "bigquery-resolve-option");
}

// C26 a schema means the same wherever it stands
fn part() -> Value {
    w1(any_kinds())
}
fn c26_bq() {
    let v = part();
    let c = lens();
    let w = json!({"type": "object", "properties": {"p": v.clone()}, "required": ["p"]});
    symrt::show_json("schema", &w);
    let (x, y) = (bq(&v, &c), bq(&w, &c));
    match (&x, &y) {
        (None, None) => {}
        (Some(x), Some(y)) => {
            let col = &y[0];
            let single = x[0]["name"] == "root";
            if single {
                let mut z = x[0].clone();
                z["name"] = json!("p");
                symrt::check(&z == col, "bigquery-column-as-root");
            } else {
                symrt::check(col.get("fields") == Some(x), "bigquery-record-as-root");
            }
        }
        // a record that lost all of its columns
        (None, Some(y)) => symrt::check(y[0]["type"] == "STRING", "bigquery-part-lost"),
        _ => symrt::check(false, "bigquery-whole-lost"),
    }
}
fn c26_avro() {
    let v = part();
    let c = lens();
    let w = json!({"type": "object", "properties": {"p": v.clone()}, "required": ["p"]});
    symrt::show_json("schema", &w);
    let (x, y) = (avro(&v, &c), avro(&w, &c));
    match (&x, &y) {
        (None, None) => {}
        (Some(x), Some(y)) => {
            let want = valid::avro_moved(x, "root", "root.p");
            let got = valid::column(y, "p").map(|f| f["type"].clone());
            symrt::check(got == Some(want), "avro-column-as-root");
        }
        _ => symrt::check(false, "avro-lost"),
    }
}
/// below an array or a map
fn c26_below_avro() {
    let v = part();
    let c = lens();
    let map = symrt::any_bool("map");
    let p = if map { json!({"type": "object", "additionalProperties": v.clone()}) } else { json!({"type": "array", "items": v.clone()}) };
    let w = json!({"type": "object", "properties": {"p": p}, "required": ["p"]});
    symrt::show_json("schema", &w);
    let (x, y) = (avro(&v, &c), avro(&w, &c));
    if let (Some(x), Some(y)) = (&x, &y) {
        // under Drop a column without its items is left out
        if let Some(f) = valid::column(y, "p") {
            let want = valid::avro_moved(x, "root", if map { "root.p.value" } else { "root.p.list" });
            let t = if c.force_nullable { &f["type"][1] } else { &f["type"] };
            let inner = &t[if map { "values" } else { "items" }];
            // a list of lists is one of records with a list
            let nested = if want.is_array() { want[1]["type"] == "array" } else { want["type"] == "array" };
            let inner = if !map & nested { &inner["fields"][0]["type"] } else { inner };
            symrt::check(inner == &want, if map { "avro-values-as-root" } else { "avro-items-as-root" });
        }
    }
}
fn c26_below_bq() {
    let v = part();
    let c = lens();
    let w = json!({"type": "object", "properties": {"p": {"type": "object", "additionalProperties": v.clone()}}, "required": ["p"]});
    symrt::show_json("schema", &w);
    if let (Some(x), Some(y)) = (bq(&v, &c), bq(&w, &c)) {
        let single = x[0]["name"] == "root";
        if let Some(col) = y[0].get("fields").and_then(|f| f.get(1)) {
            if single {
                let mut z = x[0].clone();
                z["name"] = json!("value");
                symrt::check(&z == col, "bigquery-value-as-root");
            } else {
                symrt::check(col.get("fields") == Some(&x), "bigquery-record-value-as-root");
            }
        }
    }
}
/// list items and map values too
fn c26_items() {
    let l = vec![json!({"type": "object", "properties": {"x": {"type": "integer"}, "y": {}}, "required": ["x"]}), json!({"type": "object", "properties": {"x": {"type": "array", "items": {"type": "string"}}}})];
    let v = schema(&g(l, vec![OBJ, LEAF]), "s", 1);
    let c = lens();
    let w = json!({"type": "object", "properties": {"p": {"type": "array", "items": v.clone()}, "q": {"type": "object", "additionalProperties": v.clone()}}});
    symrt::show_json("schema", &w);
    if let (Some(x), Some(y)) = (bq(&v, &c), bq(&w, &c)) {
        if x[0]["name"] != "root" {
            symrt::check(y[0].get("fields") == Some(&x), "bigquery-items-as-root");
            symrt::check(y[1]["fields"][1].get("fields") == Some(&x), "bigquery-values-as-root");
        }
    }
}
