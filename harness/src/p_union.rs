//! Unions and determinism
use crate::gen::*;
use crate::props::*;
use jst::{Context, ResolveMethod};
use serde_json::{json, Value};

harnesses!(
    c08_perm_avro, c08_perm_bq, c08_dup, c08_types, c08_nest_avro, c08_nest_bq, //
    c09_atoms, c09_three, c09_objects_avro, c09_objects_bq, c09_nested_avro, c09_nested_bq, c09_containers, c09_types, //
    c10_avro, c10_bq, c10_names_avro, c10_names_bq, c10_history_avro, c10_history_bq, c10_union_avro, c10_union_bq,
);

pub fn alts() -> Vec<Value> {
    vec![
        json!({"type": "integer"}),
        json!({"type": "number"}),
        json!({"type": "string"}),
        json!({"type": "null"}),
        json!({"type": "object", "properties": {"x": {"type": "integer"}}, "required": ["x"]}),
        json!({"type": "object", "properties": {"x": {"type": "number"}, "y": {"type": "string"}}, "required": ["x", "y"]}),
        json!({"type": ["object", "null"], "properties": {"x": {"type": "string"}}}),
        json!({"type": "array", "items": {"type": "integer"}}),
        json!({"type": "array", "items": {"type": ["number", "null"]}}),
        json!({"type": "object", "additionalProperties": {"type": "integer"}}),
        json!({"oneOf": [{"type": "null"}, {"type": "integer"}]}),
        json!({}),
        json!({"type": "boolean"}),
        json!({"type": "string", "format": "date-time"}),
        json!({"type": ["null"]}),
        json!({"type": "object", "additionalProperties": {"type": ["string", "null"]}}),
        json!({"type": "object", "properties": {}}),
        json!({"type": "object", "properties": {"x": {"type": "object", "properties": {"y": {"type": "integer"}}, "required": ["y"]}}, "required": ["x"]}),
        json!({"type": "array", "items": {"type": "object", "properties": {"x": {"type": "integer"}}}}),
        json!({"oneOf": [{"type": "object", "properties": {"x": {"type": "null"}}, "required": ["x"]}, {"type": "object", "properties": {"x": {"type": "integer"}}, "required": ["x"]}]}),
    ]
}
/// a union at one of several positions
fn at(l: &str, u: Value) -> Value {
    match symrt::any_choice(l, 4) {
        0 => u,
        1 => json!({"type": "object", "properties": {"a": u}, "required": ["a"]}),
        2 => json!({"type": "object", "properties": {"m": {"type": "object", "additionalProperties": u}}}),
        _ => json!({"type": "object", "properties": {"m": {"type": "array", "items": u}}}),
    }
}
fn same(a: &Value, b: &Value, c: &Context, fmt: u32) {
    symrt::show_json("schema", a);
    symrt::show_json("other", b);
    if fmt != 1 {
        symrt::check(avro(a, c) == avro(b, c), "avro-same");
    }
    if fmt != 0 {
        symrt::check(bq(a, c) == bq(b, c), "bigquery-same");
    }
}
fn perms(fmt: u32) {
    let (a, b, c) = (symrt::pick("a", alts()), symrt::pick("b", alts()), symrt::pick("c", alts()));
    let p = perm3("perm", a.clone(), b.clone(), c.clone());
    let cx = Context { resolve_method: resolve("ctx.resolve"), ..Context::default() };
    same(&json!({"oneOf": [a, b, c]}), &json!({ "oneOf": p }), &cx, fmt);
}
fn c08_perm_avro() {
    perms(0)
}
fn c08_perm_bq() {
    perms(1)
}
fn c08_dup() {
    let (a, b) = (symrt::pick("a", alts()), symrt::pick("b", alts()));
    let cx = Context { resolve_method: resolve("ctx.resolve"), ..Context::default() };
    same(&json!({"oneOf": [a.clone(), b.clone()]}), &json!({ "oneOf": [a.clone(), b, a] }), &cx, 2);
}
fn types() -> Vec<Value> {
    vec![json!("null"), json!("boolean"), json!("integer"), json!("number"), json!("string"), json!("object"), json!("array")]
}
fn c08_types() {
    let (a, b, c) = (symrt::pick("a", types()), symrt::pick("b", types()), symrt::pick("c", types()));
    let p = perm3("perm", a.clone(), b.clone(), c.clone());
    let mut v = json!({"properties": {"x": {"type": "integer"}}, "items": {"type": "string"}});
    let mut w = v.clone();
    v["type"] = json!([a, b, c]);
    w["type"] = p;
    let cx = Context { resolve_method: resolve("ctx.resolve"), ..Context::default() };
    same(&json!({"type": "object", "properties": {"u": v}}), &json!({"type": "object", "properties": {"u": w}}), &cx, 2);
}
/// nesting the alternatives does not matter
fn c08_nest_avro() {
    nest(0)
}
fn c08_nest_bq() {
    nest(1)
}
fn nest(fmt: u32) {
    let (a, b, c) = (symrt::pick("a", alts()), symrt::pick("b", alts()), symrt::pick("c", alts()));
    let flat = json!({"oneOf": [a.clone(), b.clone(), c.clone()]});
    let one = |x: Value| json!({ "oneOf": [x] });
    let nested = match symrt::any_choice("nesting", 8) {
        0 => json!({"oneOf": [{"oneOf": [a, b]}, c]}),
        1 => json!({"oneOf": [a, {"oneOf": [b, c]}]}),
        2 => json!({"oneOf": [one(one(a)), b, c]}),
        3 => json!({"oneOf": [one(json!({"oneOf": [a, b]})), c]}),
        4 => json!({"oneOf": [c, one(one(json!({"oneOf": [b, a]})))]}),
        5 => one(flat.clone()),
        6 => one(one(flat.clone())),
        _ => json!({"oneOf": [{"oneOf": [one(a), one(b)]}, one(c)]}),
    };
    same(&at("at", flat), &at("at", nested), &Context::default(), fmt);
}

// C09 the result of a union
fn lens() -> Context {
    Context { resolve_method: resolve("ctx.resolve"), ..Context::default() }
}
fn c09_atoms() {
    let mut l = atoms();
    l.push(json!({"type": "null"}));
    l.push(json!({"type": ["integer", "null"]}));
    l.push(json!({"type": ["null"]}));
    l.push(json!({"type": "string", "format": "email"}));
    let (a, b) = (symrt::pick("a", l.clone()), symrt::pick("b", l));
    let n = symrt::any_choice("n", 2);
    let u = if n == 0 { json!([a]) } else { json!([a, b]) };
    let v = at("at", json!({ "oneOf": u }));
    let c = lens();
    eq_avro(&v, &c);
    eq_bq(&v, &c);
}
fn c09_three() {
    let (a, b, c) = (symrt::pick("a", alts()), symrt::pick("b", alts()), symrt::pick("c", alts()));
    let v = at("at", json!({"oneOf": [a, b, c]}));
    let c = lens();
    eq_bq(&v, &c);
    eq_avro(&v, &c);
}
fn objects() -> Value {
    let l = vec![json!({"type": "integer"}), json!({"type": "number"}), json!({"type": "string"}), json!({"type": ["integer", "null"]}), json!({"type": "null"}), json!({"type": "object", "properties": {"z": {"type": "integer"}}})];
    let gg = g(l.clone(), vec![]);
    let a = obj(&gg, "A", symrt::pick("a0", l.clone()), symrt::pick("a1", l.clone()));
    let mut b = obj(&gg, "B", symrt::pick("b0", l.clone()), symrt::pick("b1", l));
    if symrt::any_bool("nullable") {
        b["type"] = json!(["object", "null"]);
    }
    json!({"oneOf": [a, b]})
}
fn c09_objects_avro() {
    used();
    eq_avro(&objects(), &lens());
}
fn c09_objects_bq() {
    used();
    eq_bq(&objects(), &lens());
}
fn nested() -> Value {
    let gg = g(vec![json!({"type": "integer"}), json!({"type": "number"}), json!({"type": "null"})], vec![OBJ, ARR, MAP, ONEOF, LEAF]);
    let l = vec![json!({"type": "integer"}), json!({"type": "string"}), json!({"type": "null"})];
    let a = node(&gg, "A", symrt::pick("a0", l.clone()), symrt::pick("a1", l.clone()));
    let b = node(&gg, "B", symrt::pick("b0", l.clone()), symrt::pick("b1", l.clone()));
    json!({"oneOf": [a, b]})
}
fn c09_nested_avro() {
    eq_avro(&nested(), &lens());
}
fn c09_nested_bq() {
    eq_bq(&nested(), &lens());
}
/// objects whose properties are unions or containers, two levels down
fn c09_containers() {
    let l = vec![
        json!({"type": "integer"}),
        json!({"type": "array", "items": {"type": "integer"}}),
        json!({"type": "array", "items": {"oneOf": [{"type": "integer"}, {"type": "null"}]}}),
        json!({"type": "object", "additionalProperties": {"type": "number"}}),
        json!({"type": "object", "additionalProperties": {"type": "object", "properties": {"p": {"type": "integer"}}, "required": ["p"]}}),
        json!({"oneOf": [{"type": "integer"}, {"type": "null"}]}),
        json!({"type": "object", "properties": {"p": {"oneOf": [{"type": "string"}, {"type": "null"}]}}, "required": ["p"]}),
        json!({"type": "object", "properties": {"p": {"type": "string"}, "q": {"type": "integer"}}, "required": ["p"]}),
    ];
    let a = symrt::pick("a", l.clone());
    let b = symrt::pick("b", l);
    let v = json!({"oneOf": [
        {"type": "object", "properties": {"k": a}, "required": ["k"]},
        {"type": "object", "properties": {"k": b, "o": {"type": "integer"}}, "required": ["k", "o"]}]});
    eq_avro(&v, &lens());
    eq_bq(&v, &lens());
}
/// lists of types
fn c09_types() {
    let (a, b, c) = (symrt::pick("a", types()), symrt::pick("b", types()), symrt::pick("c", types()));
    let n = symrt::any_choice("n", 3);
    let mut v = json!({"properties": {"x": {"type": "integer"}}, "items": {"type": "string"}});
    v["type"] = match n {
        0 => json!([a]),
        1 => json!([a, b]),
        _ => json!([a, b, c]),
    };
    if symrt::any_bool("format") {
        v["format"] = json!("date-time");
    }
    eq_bq(&v, &lens());
    eq_avro(&v, &lens());
}

// C10 determinism: the output does not depend on the iteration order of hash tables
fn reps() -> usize {
    if symrt::is_symbolic() {
        1
    } else {
        std::env::var("MIRSYM_REPS").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
    }
}
/// insertion order or the reverse, but for one iteration
fn orders() -> u32 {
    symrt::pick("orders", vec![17, 33])
}
fn stable_avro(v: &Value, c: &Context) {
    symrt::show_json("schema", v);
    symrt::hash_order(0);
    let a = avro(v, c);
    let mut i = 0;
    while i < reps() {
        symrt::hash_order(orders());
        let b = avro(v, c);
        symrt::check(a == b, "avro-stable");
        i += 1;
    }
}
fn stable_bq(v: &Value, c: &Context) {
    symrt::show_json("schema", v);
    symrt::hash_order(0);
    let a = bq(v, c);
    let mut i = 0;
    while i < reps() {
        symrt::hash_order(orders());
        let b = bq(v, c);
        symrt::check(a == b, "bigquery-stable");
        i += 1;
    }
}
fn tables() -> Value {
    let l = vec![json!({"type": "integer"}), json!({}), json!({"type": "object", "properties": {"y": {"type": "integer"}, "x": {"type": ["string", "null"]}}, "required": ["x"]})];
    match symrt::any_choice("kind", 4) {
        0 => json!({"type": "object", "properties": {"b": symrt::pick("b", l.clone()), "a": symrt::pick("a", l)}, "required": ["b", "a"]}),
        1 => json!({"type": "object", "patternProperties": {"^b": symrt::pick("b", l.clone()), "^a": symrt::pick("a", l)}}),
        2 => json!({"type": "object", "properties": {"m": {"type": "object", "additionalProperties": symrt::pick("a", l)}}}),
        _ => json!({"type": "array", "items": [{"type": "string"}, symrt::pick("a", l)], "additionalItems": false}),
    }
}
fn short() -> Context {
    Context { resolve_method: symrt::pick("ctx.resolve", vec![ResolveMethod::Cast, ResolveMethod::Drop]), tuple_struct: true, allow_maps_without_value: symrt::any_bool("ctx.allow_maps"), ..Context::default() }
}
fn c10_avro() {
    stable_avro(&tables(), &short());
}
fn c10_bq() {
    stable_bq(&tables(), &short());
}
/// names that collide, or nearly so
fn colliding() -> (Value, Context) {
    let names = vec!["a-b", "a.b", "a_b", "aB", "$a", "1a", "_1a", "A", "a", "A_B", "b"];
    let (p, q) = (symrt::any_choice("p", 11), symrt::any_choice("q", 11));
    symrt::assume(p < q);
    let (p, q) = (names[p], names[q]);
    let mut v = json!({"type": "object", "properties": {}, "required": []});
    v["properties"][p] = json!({"type": "integer"});
    v["properties"][q] = json!({"type": "string"});
    if symrt::any_bool("required") {
        v["required"] = json!([p]);
    }
    (v, Context { normalize_case: symrt::any_bool("ctx.normalize_case"), ..Context::default() })
}
fn c10_names_avro() {
    let (v, c) = colliding();
    stable_avro(&v, &c);
}
fn c10_names_bq() {
    let (v, c) = colliding();
    stable_bq(&v, &c);
}
fn merged() -> Value {
    let l = vec![json!({"type": "integer"}), json!({"type": "number"}), json!({"type": "string"})];
    json!({"oneOf": [
        {"type": "object", "properties": {"a": symrt::pick("a", l.clone()), "b": {"type": "integer"}}, "required": ["a", "b"]},
        {"type": "object", "properties": {"b": symrt::pick("c", l.clone()), "a": symrt::pick("d", l)}, "required": ["b"]}]})
}
/// a conversion after another one, and in a process of its own
fn some_table(l: &'static str) -> Value {
    let k = vec![json!({"type": "integer"}), json!({"type": "string"}), json!({})];
    match symrt::any_choice(l, 5) {
        0 => json!({"type": "object", "properties": {"aB": symrt::pick(l, k), "b": {"type": "boolean"}}, "required": ["aB"]}),
        1 => json!({"type": "object", "properties": {"m": {"type": "object", "additionalProperties": symrt::pick(l, k)}}, "mozPipelineMetadata": {"json_object_path_regex": "(.*\\.)?m$"}}),
        2 => json!({"type": "object", "properties": {"t": {"type": "array", "items": [{"type": "string"}, symrt::pick(l, k)], "additionalItems": false, "minItems": 1}}}),
        3 => json!({"type": "object", "properties": {"aB": {"oneOf": [{"type": "number"}, symrt::pick(l, k)]}}}),
        _ => json!({"type": "array", "items": symrt::pick(l, k), "title": "t"}),
    }
}
fn options(l: &'static str) -> Context {
    let mut c = Context::default();
    match symrt::any_choice(l, 8) {
        7 => c.json_object_path_regex = Some("(m|t)\\.".to_string()),
        0 => {}
        1 => c.normalize_case = true,
        2 => c.force_nullable = true,
        3 => c.tuple_struct = true,
        4 => c.resolve_method = ResolveMethod::Drop,
        5 => {
            c.resolve_method = ResolveMethod::Drop;
            c.allow_maps_without_value = true;
        }
        _ => c.json_object_path_regex = Some("(.*\\.)?(aB|t)$".to_string()),
    }
    c
}
fn text(v: &Option<Value>) -> String {
    json!(v).to_string()
}
fn value(s: &str) -> Option<Value> {
    match serde_json::from_str(s) {
        Ok(Value::Null) | Err(_) => None,
        Ok(v) => Some(v),
    }
}
fn c10_history_avro() {
    let (v, c, w, d) = (some_table("now"), options("now.options"), some_table("before"), options("before.options"));
    symrt::show_json("before", &w);
    symrt::show_json("schema", &v);
    let first = symrt::alone(|| avro(&v, &c), text, value);
    let _ = avro(&w, &d);
    symrt::check(first == avro(&v, &c), "avro-history");
}
fn c10_history_bq() {
    let (v, c, w, d) = (some_table("now"), options("now.options"), some_table("before"), options("before.options"));
    symrt::show_json("before", &w);
    symrt::show_json("schema", &v);
    let first = symrt::alone(|| bq(&v, &c), text, value);
    let _ = bq(&w, &d);
    symrt::check(first == bq(&v, &c), "bigquery-history");
}
fn c10_union_avro() {
    stable_avro(&merged(), &Context::default());
}
fn c10_union_bq() {
    stable_bq(&merged(), &Context::default());
}
