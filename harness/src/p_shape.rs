//! Arrays, maps, tuples, JSON columns, descriptions
use crate::gen::*;
use crate::props::*;
use crate::spec;
use crate::valid;
use jst::{Context, ResolveMethod};
use serde_json::{json, Value};

harnesses!(
    c13_avro, c13_bq, c13_nested, //
    c14_avro, c14_bq, c14_union, c14_deep, //
    c15_avro, c15_bq, c15_off, c15_nested, //
    c16_match, c16_resolve, c16_meta, c16_names, //
    c17_text, c17_pos, c17_long, c17_union, //
);

fn short() -> Context {
    Context { resolve_method: resolve("ctx.resolve"), force_nullable: symrt::any_bool("ctx.force_nullable"), allow_maps_without_value: symrt::any_bool("ctx.allow_maps"), ..Context::default() }
}
/// at the root, in a record (required or not), in a map
pub fn wrap(l: &str, v: Value) -> Value {
    match symrt::any_choice(l, 4) {
        0 => v,
        1 => json!({"type": "object", "properties": {"a": v}, "required": ["a"]}),
        2 => json!({"type": "object", "properties": {"a": v, "b": {"type": "string"}}}),
        _ => json!({"type": "object", "properties": {"a": {"type": "object", "additionalProperties": v}}}),
    }
}

// C13 arrays
fn array1(l: &str) -> Value {
    let mut items = wide();
    items.push(json!({"type": "object", "properties": {"x": {"type": "integer"}}}));
    items.push(json!({"type": "object", "properties": {"x": {"type": "integer"}}, "required": ["x"]}));
    items.push(json!({"type": "object", "properties": {"x": {}}}));
    items.push(json!({"type": "array", "items": {"type": "integer"}}));
    items.push(json!({"type": "array", "items": {"type": "array", "items": {"type": "integer"}}}));
    items.push(json!({"type": ["array", "null"], "items": {"type": "integer"}}));
    items.push(json!({"type": "array"}));
    items.push(json!({"oneOf": [{"type": "array", "items": {"type": "integer"}}, {"type": "array", "items": {"type": "null"}}]}));
    let mut v = json!({"type": "array"});
    v["items"] = symrt::pick(l, items);
    if symrt::any_bool(&lbl(l, "null")) {
        v["type"] = json!(["array", "null"]);
    }
    v
}
fn c13_avro() {
    eq_avro(&wrap("at", array1("items")), &short());
}
fn c13_bq() {
    eq_bq(&wrap("at", array1("items")), &short());
}
/// up to four levels of lists
fn c13_nested() {
    let mut v = symrt::pick("leaf", vec![json!({"type": "integer"}), json!({"type": ["integer", "null"]}), json!({}), json!({"type": "object", "properties": {"x": {"type": "array", "items": {"type": "string"}}}})]);
    let n = symrt::any_choice("depth", 4);
    let mut i = 0;
    while i <= n {
        let ty = if symrt::any_bool(&format!("null{}", i)) { json!(["array", "null"]) } else { json!("array") };
        let mut w = json!({});
        w["type"] = ty;
        w["items"] = v;
        v = w;
        i += 1;
    }
    let v = wrap("at", v);
    let c = Context { resolve_method: resolve("ctx.resolve"), ..Context::default() };
    eq_avro(&v, &c);
    eq_bq(&v, &c);
}

// C14 maps
fn map1() -> Value {
    let l = wide();
    let mut v = json!({});
    match symrt::any_choice("type", 3) {
        0 => v["type"] = json!("object"),
        1 => v["type"] = json!(["object", "null"]),
        _ => {}
    }
    match symrt::any_choice("add", 4) {
        0 => {}
        1 => v["additionalProperties"] = json!(false),
        2 => v["additionalProperties"] = json!(true),
        _ => v["additionalProperties"] = symrt::pick("value", l.clone()),
    }
    match symrt::any_choice("pat", 3) {
        0 => {}
        1 => v["patternProperties"] = json!({}),
        _ => v["patternProperties"] = json!({"^x": symrt::pick("pattern", l)}),
    }
    v
}
fn c14_avro() {
    eq_avro(&wrap("at", map1()), &short());
}
fn c14_bq() {
    eq_bq(&wrap("at", map1()), &short());
}
/// several patterns
fn c14_union() {
    let l = vec![
        json!({"type": "integer"}),
        json!({"type": "number"}),
        json!({"type": "null"}),
        json!({"type": "string"}),
        json!({"type": "object", "properties": {"x": {"type": "integer"}}, "required": ["x"]}),
        json!({"type": "object", "properties": {"y": {"type": "integer"}}, "required": ["y"]}),
    ];
    let mut v = json!({"type": "object", "patternProperties": {"^a": symrt::pick("a", l.clone()), "^b": symrt::pick("b", l.clone())}});
    if symrt::any_bool("add") {
        v["additionalProperties"] = symrt::pick("value", l);
    }
    let c = Context { resolve_method: resolve("ctx.resolve"), ..Context::default() };
    eq_avro(&v, &c);
    eq_bq(&v, &c);
}
fn c14_deep() {
    let mut v = symrt::pick("leaf", vec![json!({"type": "integer"}), json!({"type": ["integer", "null"]}), json!({}), json!({"type": "object", "properties": {"x": {}}})]);
    let n = symrt::any_choice("depth", 3);
    let mut i = 0;
    while i <= n {
        let k = symrt::any_choice(&format!("kind{}", i), 3);
        v = match k {
            0 => json!({"type": "object", "additionalProperties": v}),
            1 => json!({"type": ["object", "null"], "patternProperties": {"^x": v}}),
            _ => json!({"type": "object", "properties": {"m": {"type": "object", "additionalProperties": v}, "n": {"type": "integer"}}, "required": ["m"]}),
        };
        i += 1;
    }
    let c = Context { resolve_method: resolve("ctx.resolve"), allow_maps_without_value: symrt::any_bool("ctx.allow_maps"), ..Context::default() };
    eq_avro(&v, &c);
    eq_bq(&v, &c);
}

// C15 tuples
fn tuple() -> Value {
    let l = vec![json!({"type": "integer"}), json!({"type": ["string", "null"]}), json!({"type": "object", "properties": {"x": {"type": "integer"}}}), json!({})];
    let (a, b) = (symrt::pick("a", l.clone()), symrt::pick("b", l));
    let mut v = json!({"type": "array"});
    v["items"] = match symrt::any_choice("n", 2) {
        0 => json!([a]),
        _ => json!([a, b]),
    };
    let min = symrt::any_choice("min", 5);
    if min < 4 {
        v["minItems"] = symrt::pick("minItems", vec![json!(0), json!(1), json!(2), json!(3)]);
    }
    if symrt::any_bool("max") {
        v["maxItems"] = symrt::pick("maxItems", vec![json!(0), json!(1), json!(2), json!(3), json!(4)]);
    }
    match symrt::any_choice("add", 4) {
        0 => {}
        1 => v["additionalItems"] = json!(false),
        2 => v["additionalItems"] = json!(true),
        _ => v["additionalItems"] = symrt::pick("additional", vec![json!({"type": "boolean"}), json!({"type": ["integer", "null"]})]),
    }
    v
}
pub fn tctx() -> Context {
    Context { tuple_struct: true, resolve_method: resolve("ctx.resolve"), force_nullable: symrt::any_bool("ctx.force_nullable"), ..Context::default() }
}
fn c15_avro() {
    used();
    eq_avro(&wrap("at", tuple()), &tctx());
}
fn c15_bq() {
    used();
    eq_bq(&wrap("at", tuple()), &tctx());
}
/// without the option a tuple is under-specified
fn c15_off() {
    used();
    let c = Context { tuple_struct: false, ..tctx() };
    let v = wrap("at", tuple());
    eq_avro(&v, &c);
    eq_bq(&v, &c);
}
/// tuples of tuples, in lists and maps
fn c15_nested() {
    let inner = json!({"type": "array", "items": [symrt::pick("a", vec![json!({"type": "integer"}), json!({})]), {"type": "string"}], "additionalItems": false, "minItems": 1});
    let v = match symrt::any_choice("outer", 4) {
        0 => json!({"type": "array", "items": [inner, {"type": "integer"}], "maxItems": 2}),
        1 => json!({"type": "array", "items": inner}),
        2 => json!({"type": "object", "additionalProperties": inner}),
        _ => json!({"oneOf": [inner]}),
    };
    let v = wrap("at", v);
    let c = tctx();
    eq_avro(&v, &c);
    eq_bq(&v, &c);
}

// C16 JSON columns
pub fn eq_json(v: &Value, c: &Context, m: u32) {
    symrt::show_json("schema", v);
    let got = bq(v, c);
    let want = match spec::table(v, c) {
        Err(_) => None,
        Ok(n) => match c.resolve_method {
            ResolveMethod::Panic if spec::under_bq_at(&n, "", m) => None,
            _ => spec::bq_schema_at(&n, c, m),
        },
    };
    if let Some(w) = &want {
        symrt::show_json("expected", w);
    }
    agree(want, got, "json-columns");
}
pub fn pattern() -> u32 {
    symrt::any_choice("pattern", spec::PATTERNS.len()) as u32
}
fn json_schema() -> Value {
    let l = vec![json!({}), json!({"type": "integer"}), json!({"type": ["object", "array"]}), json!({"type": "object", "properties": {"b": {}}, "required": ["b"]})];
    let mut gg = g(l, vec![OBJ, MAP, ARR, LEAF]);
    gg.opt_required = false;
    let v = schema(&gg, "s", 1);
    match symrt::any_choice("at", 3) {
        0 => v,
        1 => json!({"type": "object", "properties": {"a": v, "c": {}}}),
        _ => json!({"type": "object", "properties": {"b": v}, "required": ["b"]}),
    }
}
pub fn with_pattern(c: Context, m: u32) -> Context {
    Context { json_object_path_regex: if m == 0 { None } else { Some(spec::PATTERNS[m as usize].to_string()) }, ..c }
}
fn c16_match() {
    used();
    let m = pattern();
    eq_json(&json_schema(), &with_pattern(Context::default(), m), m);
}
fn c16_resolve() {
    used();
    let m = symrt::pick("pattern", vec![0u32, 1, 4, 6]);
    let c = Context { resolve_method: resolve("ctx.resolve"), force_nullable: symrt::any_bool("ctx.force_nullable"), ..Context::default() };
    let v = json_schema();
    eq_json(&v, &with_pattern(c.clone(), m), m);
    // Avro has no such columns
    eq_avro(&v, &with_pattern(c, m));
}
/// the schema's own pattern wins
fn c16_meta() {
    used();
    let m = symrt::pick("option", vec![0u32, 1, 3]);
    let k = symrt::pick("metadata", vec![0u32, 2, 7]);
    let nested = symrt::pick("nested", vec![0u32, 6]);
    let mut v = json!({"type": "object", "properties": {"a": {}, "b": {"type": "object", "properties": {"a": {"type": ["object", "array"]}}}}});
    match symrt::any_choice("meta", 4) {
        0 => {}
        1 => v["mozPipelineMetadata"] = json!({}),
        2 => v["mozPipelineMetadata"] = json!({"json_object_path_regex": 5}),
        _ => v["mozPipelineMetadata"] = json!({"bq_table": "t"}),
    }
    if k != 0 {
        v["mozPipelineMetadata"] = json!({"json_object_path_regex": spec::PATTERNS[k as usize]});
    }
    if nested != 0 {
        v["properties"]["b"]["mozPipelineMetadata"] = json!({"json_object_path_regex": "b"});
    }
    eq_json(&v, &with_pattern(Context::default(), m), if k != 0 { k } else { m });
}
/// paths are those of the columns, not of the properties
fn c16_names() {
    used();
    let n = symrt::pick("name", vec!["a-b", "a.b", "aB", "AB", "a_b"]);
    let m = symrt::pick("pattern", vec![1u32, 2, 3, 10]);
    let mut v = json!({"type": "object", "properties": {}});
    v["properties"][n] = if symrt::any_bool("deep") { json!({"type": "object", "properties": {"b": {}}}) } else { json!({}) };
    eq_json(&v, &with_pattern(Context { normalize_case: symrt::any_bool("ctx.normalize_case"), ..Context::default() }, m), m);
}

// C17 descriptions
fn c17_text() {
    let mut v = json!({"type": "integer"});
    let t = symrt::any_string("title", 0, 2, " ~");
    let d = symrt::any_string("description", 0, 2, " ~");
    if symrt::any_bool("has-title") {
        v["title"] = json!(t);
    }
    if symrt::any_bool("has-description") {
        v["description"] = json!(d);
    }
    let v = if symrt::any_bool("nested") { json!({"type": "object", "properties": {"a": v}}) } else { v };
    let c = Context::default();
    eq_bq(&v, &c);
    eq_avro(&v, &c);
}
pub fn titled(l: &str, mut v: Value) -> Value {
    match symrt::any_choice(l, 4) {
        0 => {}
        1 => v["title"] = json!(format!("T{}", l)),
        2 => v["description"] = json!(format!("D{}", l)),
        _ => {
            v["title"] = json!(format!("T{}", l));
            v["description"] = json!(format!("D{}", l));
        }
    }
    v
}
/// at every kind of position
fn c17_pos() {
    used();
    let leaf = titled("0", symrt::pick("leaf", vec![json!({"type": "integer"}), json!({}), json!({"type": ["integer", "null"]}), json!({"type": "array", "items": {"type": "integer", "description": "i"}}), json!({"oneOf": [{"type": "integer", "title": "x"}]})]));
    let k = symrt::any_choice("kind", 6);
    let v = match k {
        0 => json!({"type": "object", "properties": {"a": leaf}, "required": ["a"]}),
        1 => json!({"type": "array", "items": leaf}),
        2 => json!({"type": "object", "additionalProperties": leaf}),
        3 => json!({"type": "array", "items": [leaf], "additionalItems": false}),
        4 => json!({"type": ["object", "null"], "properties": {"a": leaf}}),
        _ => json!({"oneOf": [leaf, {"type": "integer", "description": "other"}]}),
    };
    let v = titled("1", v);
    let v = json!({"type": "object", "description": "root", "properties": {"t": v}});
    let c = Context { tuple_struct: true, resolve_method: resolve("ctx.resolve"), ..Context::default() };
    eq_bq(&v, &c);
    // Avro carries none
    eq_avro(&v, &c);
}
/// around the limit of 1024 characters
fn c17_long() {
    let unit = symrt::pick("char", vec!["x", "\u{e9}", "\u{1f600}"]);
    let n = symrt::pick("n", vec![1, 1020, 1021, 1022, 1023, 1024, 1025, 1100]);
    let s = unit.repeat(n);
    let mut v = json!({"type": "integer"});
    match symrt::any_choice("kind", 3) {
        0 => v["description"] = json!(s),
        1 => v["title"] = json!(s),
        _ => {
            v["title"] = json!("t");
            v["description"] = json!(s);
        }
    }
    let v = if symrt::any_bool("nested") { json!({"type": "object", "properties": {"a": v}}) } else { v };
    let c = Context::default();
    if let Some(o) = bq(&v, &c) {
        symrt::check(valid::bq_ok(&o), "description-fits");
        agree(want_bq(&v, &c), Some(o), "bigquery-output");
    }
}
/// unions keep their own text, merged properties have none
fn c17_union() {
    let a = titled("a", json!({"type": "object", "properties": {"x": titled("x", json!({"type": "integer"}))}}));
    let b = titled("b", json!({"type": "object", "properties": {"x": titled("y", json!({"type": "number"})), "z": titled("z", json!({"type": "string"}))}}));
    let u = titled("u", json!({"oneOf": [a, b]}));
    let v = json!({"type": "object", "properties": {"u": u}});
    eq_bq(&v, &Context::default());
}
#[allow(unused)]
fn unused() {
    valid::distinct(&[]);
}
