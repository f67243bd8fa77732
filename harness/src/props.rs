//! One harness per domain of a property. Naming: c<nn>_<what>.
use crate::gen::*;
use crate::spec;
use crate::valid;
use jst::{Context, ResolveMethod};
use serde_json::{json, Value};

harnesses!(
    x_avro1, x_bq1, x_avro2, x_bq2, //
    c01_avro, c01_bq, c01_deep_avro, c01_deep_bq, //
    c02_avro, c02_bq, c02_deep_avro, c02_deep_bq, //
    c03_shapes, c03_names, c03_deep, //
    c04_shapes, c04_names, c04_deep, //
    c11_name, c11_required, c11_pair, c12_snake, c12_props,
);

pub fn avro(v: &Value, c: &Context) -> Option<Value> {
    match symrt::catch(|| jst::convert_avro(v, c.clone())) {
        Ok(v) => {
            symrt::show_json("avro", &v);
            symrt::reach("avro");
            Some(v)
        }
        Err(_) => {
            symrt::reach("avro-fails");
            None
        }
    }
}
pub fn bq(v: &Value, c: &Context) -> Option<Value> {
    match symrt::catch(|| jst::convert_bigquery(v, c.clone())) {
        Ok(v) => {
            symrt::show_json("bigquery", &v);
            symrt::reach("bigquery");
            Some(v)
        }
        Err(_) => {
            symrt::reach("bigquery-fails");
            None
        }
    }
}
/// what the reference says; None: the conversion fails
pub fn want_avro(v: &Value, c: &Context) -> Option<Value> {
    let n = match spec::table(v, c) {
        Err(_) => return None,
        Ok(n) => n,
    };
    let w = match c.resolve_method {
        ResolveMethod::Panic if spec::under_avro(&n) => None,
        _ => spec::avro_schema(&n, c),
    };
    if let Some(w) = &w {
        symrt::show_json("expected", w);
    }
    w
}
pub fn want_bq(v: &Value, c: &Context) -> Option<Value> {
    let n = match spec::table(v, c) {
        Err(_) => return None,
        Ok(n) => n,
    };
    let w = match c.resolve_method {
        ResolveMethod::Panic if spec::under_bq(&n) => None,
        _ => spec::bq_schema(&n, c),
    };
    if let Some(w) = &w {
        symrt::show_json("expected", w);
    }
    w
}
pub fn agree(want: Option<Value>, got: Option<Value>, id: &'static str) {
    symrt::check(want == got, id);
}
/// full agreement with the reference
pub fn eq_avro(v: &Value, c: &Context) {
    symrt::show_json("schema", v);
    agree(want_avro(v, c), avro(v, c), "avro-output");
}
pub fn eq_bq(v: &Value, c: &Context) {
    symrt::show_json("schema", v);
    agree(want_bq(v, c), bq(v, c), "bigquery-output");
}
pub fn eq_avro_by(v: &Value, c: &Context, f: fn(&Value) -> Value, id: &'static str) {
    symrt::show_json("schema", v);
    agree(want_avro(v, c).map(|x| f(&x)), avro(v, c).map(|x| f(&x)), id);
}
pub fn eq_bq_by(v: &Value, c: &Context, f: fn(&Value) -> Value, id: &'static str) {
    symrt::show_json("schema", v);
    agree(want_bq(v, c).map(|x| f(&x)), bq(v, c).map(|x| f(&x)), id);
}
pub fn no_leaf() -> Vec<u32> {
    vec![OBJ, NOBJ, ARR, MAP, PAT, ONEOF, TUP]
}
fn x_avro1() {
    eq_avro(&w1(any_kinds()), &ctx());
}
fn x_bq1() {
    eq_bq(&w1(any_kinds()), &ctx());
}
fn x_avro2() {
    eq_avro(&w2(no_leaf(), no_leaf()), &ctx());
}
fn x_bq2() {
    eq_bq(&w2(no_leaf(), no_leaf()), &ctx());
}


// C01 types: leaf types at every kind of position, nullability and text aside
fn typed1() -> Value {
    let a = typed("a");
    let b = typed("b");
    node(&g(leaves(), any_kinds()), "s", a, b)
}
fn c01_avro() {
    used();
    eq_avro_by(&typed1(), &cast(), valid::avro_types, "avro-type");
}
fn c01_bq() {
    used();
    eq_bq_by(&typed1(), &cast(), valid::bq_types, "bigquery-type");
}
fn typed_deep() -> Value {
    let leaf = symrt::pick("leaf", atoms());
    let mut gg = g(vec![json!({"type": "integer"}), json!({"type": "null"})], vec![OBJ, ARR, MAP, ONEOF, TUP]);
    gg.opt_required = false;
    chain(&gg, "s", 3, leaf)
}
fn c01_deep_avro() {
    eq_avro_by(&typed_deep(), &Context { tuple_struct: true, ..Context::default() }, valid::avro_types, "avro-type");
}
fn c01_deep_bq() {
    eq_bq_by(&typed_deep(), &Context { tuple_struct: true, ..Context::default() }, valid::bq_types, "bigquery-type");
}

// C02 nullability, leaf types aside
fn null1() -> Value {
    let l = vec![
        json!({"type": "integer"}),
        json!({"type": "null"}),
        json!({"type": ["string", "null"]}),
        json!({"type": ["null", "object"], "properties": {"x": {"type": "integer"}}, "required": ["x"]}),
        json!({"type": "object", "properties": {"x": {"type": "null"}, "y": {"type": ["null", "integer"]}, "z": {"type": "integer"}}, "required": ["x", "y", "z"]}),
        json!({"type": ["array", "null"], "items": {"type": "integer"}}),
        json!({"type": "array", "items": {"type": "array", "items": {"type": ["integer", "null"]}}}),
        json!({"type": ["object", "null"], "additionalProperties": {"type": ["integer", "null"]}}),
        json!({"oneOf": [{"type": "integer"}, {"type": "null"}]}),
        json!({"oneOf": [{"type": "integer"}, {"type": ["number", "null"]}]}),
        json!({"oneOf": [{"oneOf": [{"type": "null"}]}, {"type": "object", "properties": {"x": {"type": "integer"}}, "required": ["x"]}]}),
        json!({"type": ["null", "null"]}),
        json!({"type": ["string", "integer", "null"]}),
        json!({}),
    ];
    schema(&g(l, any_kinds()), "s", 1)
}
fn c02_avro() {
    used();
    eq_avro_by(&null1(), &cast(), valid::avro_nulls, "avro-null");
}
fn c02_bq() {
    used();
    eq_bq_by(&null1(), &cast(), valid::bq_modes, "bigquery-mode");
}
fn null_deep() -> Value {
    let leaf = symrt::pick("leaf", vec![json!({"type": "integer"}), json!({"type": ["integer", "null"]})]);
    chain(&g(vec![json!({"type": "integer"}), json!({"type": "null"})], vec![OBJ, NOBJ, ARR, MAP, ONEOF]), "s", 3, leaf)
}
fn c02_deep_avro() {
    let c = Context { force_nullable: symrt::any_bool("ctx.force_nullable"), ..Context::default() };
    eq_avro_by(&null_deep(), &c, valid::avro_nulls, "avro-null");
}
fn c02_deep_bq() {
    let c = Context { force_nullable: symrt::any_bool("ctx.force_nullable"), ..Context::default() };
    eq_bq_by(&null_deep(), &c, valid::bq_modes, "bigquery-mode");
}

// C03, C04 validity of the output
pub fn valid_avro(v: &Value, c: &Context) {
    symrt::show_json("schema", v);
    if let Some(o) = avro(v, c) {
        symrt::check(valid::avro_ok(&o), "valid-avro");
        let mut names = vec![];
        valid::avro_full_names(&o, &mut names);
        symrt::check(valid::distinct(&names), "distinct-names");
    }
}
pub fn valid_bq(v: &Value, c: &Context) {
    symrt::show_json("schema", v);
    if let Some(o) = bq(v, c) {
        symrt::check(valid::bq_ok(&o), "valid-bigquery");
    }
}
fn named1() -> Value {
    let n = symrt::any_string("name", 0, 3, " ~");
    let mut v = json!({"type": "object", "properties": {"x": {"type": "integer"}}});
    v["properties"][&n] = symrt::pick("leaf", vec![json!({"type": "string"}), json!({"type": "object", "properties": {"y": {"type": "string"}}})]);
    v
}
fn c03_shapes() {
    valid_avro(&w1(any_kinds()), &ctx());
}
fn c03_names() {
    valid_avro(&named1(), &ctx());
}
fn deep() -> Value {
    let leaf = symrt::pick("leaf", vec![json!({"type": "integer"}), json!({"type": "null"}), json!({})]);
    let mut gg = g(vec![json!({"type": "integer"}), json!({"type": "null"})], vec![OBJ, NOBJ, ARR, MAP, ONEOF, TUP]);
    gg.opt_required = false;
    chain(&gg, "s", 3, leaf)
}
pub fn no_panic() -> Context {
    Context { resolve_method: symrt::pick("ctx.resolve", vec![ResolveMethod::Cast, ResolveMethod::Drop]), ..ctx() }
}
fn c03_deep() {
    valid_avro(&deep(), &no_panic());
}
fn c04_shapes() {
    valid_bq(&w1(any_kinds()), &ctx());
}
fn c04_names() {
    valid_bq(&named1(), &ctx());
}
fn c04_deep() {
    valid_bq(&deep(), &no_panic());
}

// C11 column names
fn c11_name() {
    used();
    let n = symrt::any_string("name", 0, 3, " ~");
    symrt::show("name", &n);
    let mut v = json!({"type": "object", "properties": {}});
    v["properties"][&n] = json!({"type": "integer"});
    let c = Context { normalize_case: symrt::any_bool("ctx.normalize_case"), ..Context::default() };
    eq_avro(&v, &c);
    eq_bq(&v, &c);
}
fn c11_required() {
    used();
    let n = symrt::any_string("name", 0, 2, " ~");
    let r = symrt::any_string("required", 0, 2, " ~");
    let mut v = json!({"type": "object", "properties": {}, "required": []});
    v["properties"][&n] = json!({"type": "integer"});
    v["required"] = json!([r]);
    let c = Context { normalize_case: symrt::any_bool("ctx.normalize_case"), ..Context::default() };
    eq_bq_by(&v, &c, valid::bq_modes, "required-follows-name");
}
fn c11_pair() {
    used();
    // two properties whose names do not collide are both kept
    let n = symrt::any_string("n", 0, 2, "--..__azAZ09$$");
    let m = symrt::any_string("m", 0, 2, "--..__azAZ09$$");
    let nc = symrt::any_bool("ctx.normalize_case");
    symrt::assume(n != m);
    let a = spec::col_name(&n, nc);
    let b = spec::col_name(&m, nc);
    symrt::assume(a.is_none() | (a != b));
    let mut v = json!({"type": "object", "properties": {}});
    v["properties"][&n] = json!({"type": "integer"});
    v["properties"][&m] = json!({"type": "string"});
    let c = Context { normalize_case: nc, ..Context::default() };
    eq_bq(&v, &c);
}
// C12 snake case
fn c12_snake() {
    let n = symrt::any_string("name", 0, 6, " ~");
    let got = jst::casing::to_snake_case(&n);
    symrt::show("name", &n);
    symrt::check(got == spec::snake(&n), "snake-case");
}
fn c12_props() {
    used();
    let n = symrt::any_string("name", 0, 5, " ~");
    let got = jst::casing::to_snake_case(&n);
    symrt::check(got.chars().all(|c| c == '_' || c.is_ascii_lowercase() || c.is_ascii_digit()), "charset");
    symrt::check(!got.starts_with('_') && !got.ends_with('_') && !got.contains("__"), "underscores");
    symrt::check(jst::casing::to_snake_case(&got) == got, "idempotent");
    let a: String = n.chars().filter(|c| c.is_ascii_alphanumeric()).map(|c| c.to_ascii_lowercase()).collect();
    let b: String = got.chars().filter(|c| *c != '_').collect();
    symrt::check(a == b, "characters-kept");
}
