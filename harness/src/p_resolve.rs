//! Resolve methods
use crate::gen::*;
use crate::props::*;
use crate::spec;
use crate::valid;
use jst::{Context, ResolveMethod};
use serde_json::{json, Value};

harnesses!(
    c05_avro, c05_bq, c05_deep, c05_odd, //
    c06_avro, c06_bq, c06_deep_avro, c06_deep_bq, c06_sub_avro, c06_sub_bq, //
    c07_avro, c07_bq, c07_deep_avro, c07_deep_bq, //
);

/// leaves that are, or contain, something under-specified
pub fn vague() -> Vec<Value> {
    vec![
        json!({"type": "integer"}),
        json!({"type": "null"}),
        json!({}),
        json!({"type": "object"}),
        json!({"type": "array"}),
        json!({"type": "object", "properties": {}}),
        json!({"type": ["string", "integer"]}),
        json!({"type": "object", "properties": {"x": {"type": "integer"}, "y": {}}}),
        json!({"oneOf": [{"type": "integer"}, {"type": "array", "items": {"type": "integer"}}]}),
        json!({"type": "object", "properties": {"x": {}}, "required": ["x"]}),
        json!({"type": "array", "items": {}}),
        json!({"type": "array", "items": {"type": "array"}}),
        json!({"type": "array", "items": {"type": "object", "properties": {}}}),
        json!({"type": "array", "items": {"type": "object", "properties": {"x": {"type": "integer"}, "y": {}}}}),
        json!({"type": "object", "additionalProperties": {}}),
        json!({"type": "object", "additionalProperties": {"type": "object", "properties": {}}}),
        json!({"type": "object", "patternProperties": {"^a": {"type": "integer"}, "^b": {"type": "string"}}}),
        json!({"type": "array", "items": [{}, {"type": "integer"}], "maxItems": 2}),
        json!({"type": ["object", "null"]}),
        json!({"type": "object", "properties": {"$": {"type": "integer"}}}),
        json!({"oneOf": [{"type": "object", "properties": {"x": {"type": "integer"}}}, {"type": "object", "properties": {"x": {"type": "string"}}}]}),
        json!({"oneOf": [{"type": "object", "properties": {"x": {"type": "integer"}}}, {}]}),
        json!({"type": "boolean"}),
    ]
}
fn v1() -> Value {
    let a = symrt::pick("s.0", vague());
    let b = symrt::pick("s.1", vec![json!({"type": "integer"}), json!({"type": "string"}), json!({}), json!({"type": "null"}), json!({"type": "object", "properties": {}}), json!({"type": "object", "properties": {"x": {"type": "integer"}}, "required": ["x"]})]);
    node(&g(vague(), any_kinds()), "s", a, b)
}
fn vague_few() -> Vec<Value> {
    vec![json!({"type": "integer"}), json!({}), json!({"type": "object", "properties": {}}), json!({"type": "object", "properties": {"x": {"type": "integer"}, "y": {}}})]
}
fn vdeep() -> Value {
    let leaf = symrt::pick("leaf", vague_few());
    let mut gg = g(vec![json!({"type": "integer"}), json!({})], vec![OBJ, NOBJ, ARR, MAP, PAT, ONEOF]);
    gg.opt_required = false;
    chain(&gg, "s", 3, leaf)
}

// C05 cast
pub fn cast_avro(v: &Value, c: &Context) {
    symrt::show_json("schema", v);
    let o = avro(v, c);
    symrt::check(o.is_some(), "avro-converts");
    agree(want_avro(v, c).map(|x| valid::avro_names(&x)), o.map(|x| valid::avro_names(&x)), "avro-columns");
}
pub fn cast_bq(v: &Value, c: &Context) {
    symrt::show_json("schema", v);
    let o = bq(v, c);
    symrt::check(o.is_some(), "bigquery-converts");
    agree(want_bq(v, c).map(|x| valid::bq_names(&x)), o.map(|x| valid::bq_names(&x)), "bigquery-columns");
}
fn c05_avro() {
    cast_avro(&v1(), &cast());
}
fn c05_bq() {
    cast_bq(&v1(), &cast());
}
fn c05_deep() {
    let v = vdeep();
    cast_avro(&v, &Context::default());
    cast_bq(&v, &Context::default());
}
/// keywords that say nothing about the structure, at every position
fn odd() -> Value {
    let leaf = symrt::pick(
        "leaf",
        vec![
            json!({"allOf": [{"type": "integer"}]}),
            json!({"anyOf": [{"type": "integer"}, {"type": "string"}]}),
            json!({"$ref": "#/definitions/x"}),
            json!({"not": {"type": "integer"}}),
            json!({"enum": ["a", "b"]}),
            json!({"type": "object", "additionalProperties": true}),
            json!({"type": "object", "additionalProperties": false}),
            json!({"type": "object", "patternProperties": {}}),
            json!({"type": "object", "required": ["a"]}),
            json!({"properties": {"x": {"type": "integer"}}}),
            json!({"type": "array", "items": {}}),
            json!({"type": "array", "items": [{"type": "integer"}]}),
        ],
    );
    node(&g(leaves(), vec![OBJ, ARR, MAP, ONEOF]), "s", leaf, json!({"type": "integer"}))
}
fn c05_odd() {
    let c = Context { tuple_struct: false, ..cast() };
    let v = odd();
    cast_avro(&v, &c);
    cast_bq(&v, &c);
    eq_avro(&v, &c);
    eq_bq(&v, &c);
}

// C06 drop
fn c06_avro() {
    used();
    eq_avro_by(&v1(), &with(ResolveMethod::Drop), valid::avro_types, "avro-columns");
}
fn c06_bq() {
    used();
    eq_bq_by(&v1(), &with(ResolveMethod::Drop), valid::bq_types, "bigquery-columns");
}
fn drop_default() -> Context {
    Context { resolve_method: ResolveMethod::Drop, allow_maps_without_value: symrt::any_bool("ctx.allow_maps"), ..Context::default() }
}
fn c06_deep_avro() {
    eq_avro_by(&vdeep(), &drop_default(), valid::avro_types, "avro-columns");
}
fn c06_deep_bq() {
    eq_bq_by(&vdeep(), &drop_default(), valid::bq_types, "bigquery-columns");
}
fn c06_sub_avro() {
    used();
    let v = v1();
    let c = Context { tuple_struct: true, ..with(ResolveMethod::Drop) };
    symrt::show_json("schema", &v);
    if let (Some(a), Some(b)) = (avro(&v, &c), avro(&v, &Context { resolve_method: ResolveMethod::Cast, ..c.clone() })) {
        symrt::check(valid::avro_sub(&a, &b), "avro-drop-is-part-of-cast");
    }
}
fn c06_sub_bq() {
    used();
    let v = v1();
    let c = Context { tuple_struct: true, ..with(ResolveMethod::Drop) };
    symrt::show_json("schema", &v);
    if let (Some(a), Some(b)) = (bq(&v, &c), bq(&v, &Context { resolve_method: ResolveMethod::Cast, ..c.clone() })) {
        symrt::check(valid::bq_sub(&a, &b), "bigquery-drop-is-part-of-cast");
    }
}

// C07 panic
pub fn panic_avro(v: &Value, c: &Context) {
    symrt::show_json("schema", v);
    let n = match spec::table(v, c) {
        Ok(n) => n,
        Err(_) => return,
    };
    let o = avro(v, c);
    symrt::check(o.is_none() == spec::under_avro(&n), "avro-fails-iff-under-specified");
    if o.is_some() {
        symrt::check(o == avro(v, &Context { resolve_method: ResolveMethod::Cast, ..c.clone() }), "avro-same-as-cast");
        symrt::check(o == avro(v, &Context { resolve_method: ResolveMethod::Drop, ..c.clone() }), "avro-same-as-drop");
    }
}
pub fn panic_bq(v: &Value, c: &Context) {
    symrt::show_json("schema", v);
    let n = match spec::table(v, c) {
        Ok(n) => n,
        Err(_) => return,
    };
    let o = bq(v, c);
    symrt::check(o.is_none() == spec::under_bq(&n), "bigquery-fails-iff-under-specified");
    if o.is_some() {
        symrt::check(o == bq(v, &Context { resolve_method: ResolveMethod::Cast, ..c.clone() }), "bigquery-same-as-cast");
        symrt::check(o == bq(v, &Context { resolve_method: ResolveMethod::Drop, ..c.clone() }), "bigquery-same-as-drop");
    }
}
fn c07_avro() {
    used();
    panic_avro(&v1(), &with(ResolveMethod::Panic));
}
fn c07_bq() {
    used();
    panic_bq(&v1(), &with(ResolveMethod::Panic));
}
fn c07_deep_avro() {
    panic_avro(&vdeep(), &Context { resolve_method: ResolveMethod::Panic, ..Context::default() });
}
fn c07_deep_bq() {
    panic_bq(&vdeep(), &Context { resolve_method: ResolveMethod::Panic, ..Context::default() });
}
