//! Two levels of composites, many parts, deep chains
use crate::gen::*;
use crate::p_rel::*;
use crate::p_resolve::*;
use crate::p_shape::*;
use crate::props::*;
use crate::spec;
use crate::valid;
use jst::{Context, ResolveMethod};
use serde_json::{json, Value};

harnesses!(
    x_avro_m2, x_bq_m2, //
    c02_m2_avro, c02_m2_bq, c02_many, //
    c03_m2, c04_m2, //
    c05_m2_avro, c05_m2_bq, c06_m2_avro, c06_m2_bq, c07_m2_avro, c07_m2_bq, //
    c08_four, c09_five, c09_m2_avro, c09_m2_bq, c09_w2_avro, c09_w2_bq, //
    c11_odd, c11_three, c12_long, //
    c13_chain, c13_of, c14_of, c14_many, c15_many, c15_of, c15_long_avro, c15_long_bq, c02_tuple, c05_tuple, c06_tuple, //
    c16_m2, c16_chain, c17_m2, //
    c18_m2, c18_many, c19_m2, c19_chain, //
    c20_m2_avro, c20_m2_bq, c20_many, //
    c22_m2_avro, c22_m2_bq, c23_m2_avro, c23_m2_bq, //
    c25_m2_tuple, c25_m2_maps, c25_m2_case, c25_m2_regex, //
    c26_m2_avro, c26_m2_bq, //
);

fn comp() -> Value {
    m2(no_leaf(), no_leaf())
}
fn tup() -> Context {
    Context { tuple_struct: true, ..Context::default() }
}
fn some(r: ResolveMethod) -> Context {
    Context { resolve_method: r, allow_maps_without_value: symrt::any_bool("ctx.allow_maps"), ..tup() }
}
fn forced() -> Context {
    Context { force_nullable: symrt::any_bool("ctx.force_nullable"), ..tup() }
}
fn x_avro_m2() {
    eq_avro(&comp(), &ctx());
}
fn x_bq_m2() {
    eq_bq(&comp(), &ctx());
}
fn c02_m2_avro() {
    eq_avro_by(&comp(), &forced(), valid::avro_nulls, "avro-null");
}
fn c02_m2_bq() {
    eq_bq_by(&comp(), &forced(), valid::bq_modes, "bigquery-mode");
}
/// up to five properties, any of them required
fn many(l: Vec<Value>) -> Value {
    let names = ["a", "a_b", "b", "c", "value"];
    let mut v = json!({"type": "object", "properties": {}});
    let mut req = vec![];
    let mut i = 0;
    while i < 5 {
        if i < 2 || symrt::any_bool(&format!("has{}", i)) {
            v["properties"][names[i]] = symrt::pick(&format!("p{}", i), l.clone());
        }
        if symrt::any_bool(&format!("req{}", i)) {
            req.push(json!(names[i]));
        }
        i += 1;
    }
    v["required"] = Value::Array(req);
    if symrt::any_bool("root") {
        v
    } else {
        json!({"type": "array", "items": v})
    }
}
fn simple() -> Vec<Value> {
    vec![json!({"type": "integer"}), json!({"type": ["string", "null"]}), json!({}), json!({"type": "array", "items": {"type": "integer"}})]
}
fn c02_many() {
    let v = many(simple());
    eq_avro_by(&v, &Context::default(), valid::avro_nulls, "avro-null");
    eq_bq_by(&v, &Context::default(), valid::bq_modes, "bigquery-mode");
}
fn c03_m2() {
    valid_avro(&comp(), &Context { tuple_struct: true, ..no_panic() });
}
fn c04_m2() {
    valid_bq(&comp(), &Context { tuple_struct: true, ..no_panic() });
}
fn c05_m2_avro() {
    cast_avro(&comp(), &forced());
}
fn c05_m2_bq() {
    cast_bq(&comp(), &forced());
}
fn c06_m2_avro() {
    eq_avro_by(&comp(), &some(ResolveMethod::Drop), valid::avro_types, "avro-columns");
}
fn c06_m2_bq() {
    eq_bq_by(&comp(), &some(ResolveMethod::Drop), valid::bq_types, "bigquery-columns");
}
fn c07_m2_avro() {
    panic_avro(&comp(), &some(ResolveMethod::Panic));
}
fn c07_m2_bq() {
    panic_bq(&comp(), &some(ResolveMethod::Panic));
}
fn atoms4() -> Vec<Value> {
    vec![
        json!({"type": "integer"}),
        json!({"type": "number"}),
        json!({"type": "null"}),
        json!({"type": "object", "properties": {"x": {"type": "integer"}}, "required": ["x"]}),
        json!({"type": "object", "properties": {"x": {"type": "number"}, "y": {"type": "integer"}}, "required": ["y"]}),
        json!({"type": "string"}),
    ]
}
/// four alternatives, rotated or reversed
fn c08_four() {
    let (a, b, c, d) = (symrt::pick("a", atoms4()), symrt::pick("b", atoms4()), symrt::pick("c", atoms4()), symrt::pick("d", atoms4()));
    let p = match symrt::any_choice("order", 4) {
        0 => json!([b, c, d, a]),
        1 => json!([d, c, b, a]),
        2 => json!([c, a, d, b]),
        _ => json!([a, b, {"oneOf": [c, d]}, b, a]),
    };
    let v = json!({"oneOf": [a, b, c, d]});
    let w = json!({ "oneOf": p });
    let c = Context::default();
    symrt::show_json("schema", &v);
    symrt::show_json("other", &w);
    symrt::check(avro(&v, &c) == avro(&w, &c), "avro-same");
    symrt::check(bq(&v, &c) == bq(&w, &c), "bigquery-same");
}
/// up to five alternatives
fn c09_five() {
    let mut l = atoms4();
    l.push(json!({"type": "object", "additionalProperties": {"type": "integer"}}));
    l.push(json!({"type": "object", "additionalProperties": {"type": "null"}}));
    l.push(json!({"type": "array", "items": {"type": "integer"}}));
    l.push(json!({"type": "array", "items": {"type": ["number", "null"]}}));
    let mut u = vec![];
    let n = symrt::any_choice("n", 5);
    let mut i = 0;
    while i <= n {
        u.push(symrt::pick(&format!("u{}", i), l.clone()));
        i += 1;
    }
    let v = json!({ "oneOf": u });
    let c = Context { resolve_method: resolve("ctx.resolve"), ..Context::default() };
    eq_bq(&v, &c);
    eq_avro(&v, &c);
}
/// a union of two composites of composites
fn union2(l: Vec<Value>, k: Vec<u32>) -> Value {
    let a = symrt::pick("a.0", l.clone());
    let b = symrt::pick("a.1", two());
    let x = node(&g(mid(), k), "a", a, b);
    let a = symrt::pick("b.0", two());
    let b = symrt::pick("b.1", l);
    let y = node(&g(mid(), vec![OBJ, ARR, MAP]), "b", a, b);
    let k = symrt::any_choice("in", 3);
    match k {
        0 => json!({"oneOf": [x, y]}),
        1 => json!({"oneOf": [{"type": "array", "items": x}, {"type": ["array", "null"], "items": y}]}),
        _ => json!({"oneOf": [{"type": "object", "properties": {"p": x}, "required": ["p"]}, {"type": "object", "properties": {"p": y}, "required": ["p"]}]}),
    }
}
fn pieces() -> Vec<Value> {
    vec![json!({"type": "integer"}), json!({}), json!({"type": "object", "properties": {"x": {"type": "integer"}}, "required": ["x"]}), json!({"oneOf": [{"type": "integer"}, {"type": "null"}]})]
}
fn c09_m2_avro() {
    eq_avro(&union2(pieces(), vec![OBJ, NOBJ, ARR, MAP, ONEOF]), &tup());
}
fn c09_m2_bq() {
    eq_bq(&union2(pieces(), vec![OBJ, NOBJ, ARR, MAP, ONEOF]), &tup());
}
fn c09_w2_avro() {
    eq_avro(&union2(mid(), no_leaf()), &tup());
}
fn c09_w2_bq() {
    eq_bq(&union2(mid(), no_leaf()), &tup());
}

/// one composite around another, five times
fn tower(l: &str, d: u32, kinds: Vec<u32>, leaf: Value) -> Value {
    let mut v = leaf;
    let mut i = 0;
    while i < d {
        let k = symrt::pick(&lbl(l, &format!("{}", i)), kinds.clone());
        v = match k {
            OBJ => json!({"type": "object", "properties": {"a": v, "b": {"type": "integer"}}, "required": ["a"]}),
            NOBJ => json!({"type": ["object", "null"], "properties": {"b": v}}),
            ARR => json!({"type": "array", "items": v}),
            MAP => json!({"type": "object", "additionalProperties": v}),
            PAT => json!({"type": ["null", "object"], "patternProperties": {"^a": v}}),
            TUP => json!({"type": "array", "items": [v], "additionalItems": false}),
            _ => json!({"oneOf": [v, {"type": "null"}]}),
        };
        i += 1;
    }
    v
}
fn c13_chain() {
    let leaf = symrt::pick("leaf", vec![json!({"type": "integer"}), json!({"type": ["integer", "null"]}), json!({})]);
    let v = tower("t", 5, vec![ARR, OBJ, ONEOF], leaf);
    let c = Context { resolve_method: resolve("ctx.resolve"), ..Context::default() };
    eq_avro(&v, &c);
    eq_bq(&v, &c);
}
/// arrays of any composite
fn c13_of() {
    let a = symrt::pick("s.0", wide());
    let b = symrt::pick("s.1", two());
    let t = node(&g(wide(), no_leaf()), "s", a, b);
    let v = match symrt::any_choice("at", 3) {
        0 => json!({"type": "array", "items": t}),
        1 => json!({"type": ["array", "null"], "items": {"type": "array", "items": t}}),
        _ => json!({"type": "object", "properties": {"p": {"type": "array", "items": t}}, "required": ["p"]}),
    };
    let c = Context { resolve_method: resolve("ctx.resolve"), ..tup() };
    eq_avro(&v, &c);
    eq_bq(&v, &c);
}
fn c14_of() {
    let a = symrt::pick("s.0", wide());
    let b = symrt::pick("s.1", two());
    let t = node(&g(wide(), no_leaf()), "s", a, b);
    let v = match symrt::any_choice("at", 3) {
        0 => json!({"type": "object", "additionalProperties": t}),
        1 => json!({"type": ["object", "null"], "patternProperties": {"^x": t}, "additionalProperties": false}),
        _ => json!({"type": "object", "properties": {"p": {"additionalProperties": t}}, "required": ["p"]}),
    };
    let c = some(resolve("ctx.resolve"));
    eq_avro(&v, &c);
    eq_bq(&v, &c);
}
/// up to four patterns
fn c14_many() {
    let l = atoms4();
    let names = ["^a", "^b", "c", "^d$"];
    let mut v = json!({"type": "object", "patternProperties": {}});
    let mut i = 0;
    while i < 4 {
        if symrt::any_bool(&format!("has{}", i)) {
            v["patternProperties"][names[i]] = symrt::pick(&format!("p{}", i), l.clone());
        }
        i += 1;
    }
    if symrt::any_bool("add") {
        v["additionalProperties"] = symrt::pick("value", l);
    }
    let v = json!({"type": "object", "properties": {"m": v}});
    let c = some(resolve("ctx.resolve"));
    eq_avro(&v, &c);
    eq_bq(&v, &c);
}
/// up to four items, and additional ones
fn c15_many() {
    let l = vec![json!({"type": "integer"}), json!({"type": ["string", "null"]}), json!({})];
    let mut items = vec![];
    let n = symrt::any_choice("n", 5);
    let mut i = 0;
    while i < n {
        items.push(symrt::pick(&format!("i{}", i), l.clone()));
        i += 1;
    }
    let mut v = json!({"type": "array"});
    v["items"] = Value::Array(items);
    if symrt::any_bool("min") {
        v["minItems"] = symrt::pick("minItems", vec![json!(0), json!(1), json!(2), json!(3), json!(4), json!(7)]);
    }
    if symrt::any_bool("max") {
        v["maxItems"] = symrt::pick("maxItems", vec![json!(0), json!(1), json!(2), json!(3), json!(4), json!(5), json!(8)]);
    }
    match symrt::any_choice("add", 4) {
        0 => {}
        1 => v["additionalItems"] = json!(false),
        2 => v["additionalItems"] = json!(true),
        _ => v["additionalItems"] = symrt::pick("additional", vec![json!({"type": "boolean"}), json!({})]),
    }
    let c = Context { resolve_method: resolve("ctx.resolve"), ..tup() };
    eq_avro(&v, &c);
    eq_bq(&v, &c);
}
/// more elements than there are digits
pub fn long_tuple(any: bool) -> Value {
    let n = symrt::pick("n", vec![3usize, 4, 10, 12]);
    let k = symrt::any_choice("which", 12);
    symrt::assume(k < n);
    let x = symrt::pick("x", vec![json!({"type": "integer"}), json!({"type": ["string", "null"]}), json!({"oneOf": [{"type": "integer"}, {"type": "number"}]}), json!({})]);
    let mut items = vec![];
    let mut i = 0;
    while i < n {
        items.push(if i == k { x.clone() } else if i % 2 == 0 { json!({"type": "boolean"}) } else { json!({"type": "object", "properties": {"y": {"type": "string"}}, "required": ["y"]}) });
        i += 1;
    }
    let mut v = json!({"type": "array"});
    v["items"] = Value::Array(items);
    if symrt::any_bool("min") {
        v["minItems"] = symrt::pick("minItems", vec![json!(0), json!(1), json!(2), json!(9), json!(11), json!(13)]);
    }
    match symrt::any_choice("add", 3) {
        0 => v["additionalItems"] = json!(false),
        1 => v["maxItems"] = json!(n),
        _ => {
            v["maxItems"] = symrt::pick("maxItems", if any { vec![json!(2), json!(4), json!(12), json!(14)] } else { vec![json!(12), json!(13)] });
            v["additionalItems"] = symrt::pick("additional", vec![json!({"type": "number"}), json!({"type": ["integer", "null"]})]);
        }
    }
    if symrt::any_bool("nested") {
        json!({"type": "object", "properties": {"t": v}, "required": ["t"]})
    } else {
        v
    }
}
fn c15_long_avro() {
    eq_avro(&long_tuple(true), &Context { resolve_method: resolve("ctx.resolve"), ..tup() });
}
fn c15_long_bq() {
    eq_bq(&long_tuple(true), &Context { resolve_method: resolve("ctx.resolve"), ..tup() });
}
fn c02_tuple() {
    let v = long_tuple(false);
    eq_avro_by(&v, &forced(), valid::avro_nulls, "avro-null");
    eq_bq_by(&v, &forced(), valid::bq_modes, "bigquery-mode");
}
fn c05_tuple() {
    let v = long_tuple(false);
    cast_avro(&v, &forced());
    cast_bq(&v, &forced());
}
fn c06_tuple() {
    let v = long_tuple(false);
    eq_avro_by(&v, &some(ResolveMethod::Drop), valid::avro_types, "avro-columns");
    eq_bq_by(&v, &some(ResolveMethod::Drop), valid::bq_types, "bigquery-columns");
}
/// tuples of any composite
fn c15_of() {
    let a = symrt::pick("s.0", wide());
    let b = symrt::pick("s.1", two());
    let t = node(&g(wide(), no_leaf()), "s", a, b);
    let min = symrt::pick("min", vec![json!(0), json!(1), json!(2)]);
    let v = match symrt::any_choice("at", 2) {
        0 => json!({"type": "array", "items": [t, {"type": "integer"}], "maxItems": 2, "minItems": min}),
        _ => json!({"type": ["array", "null"], "items": [{"type": "string"}], "maxItems": 2, "minItems": min, "additionalItems": t}),
    };
    let v = json!({"type": "object", "properties": {"p": v}, "required": ["p"]});
    let c = Context { resolve_method: resolve("ctx.resolve"), ..tup() };
    eq_avro(&v, &c);
    eq_bq(&v, &c);
}
fn c16_m2() {
    let m = pattern();
    eq_json(&comp(), &with_pattern(tup(), m), m);
}
fn c16_chain() {
    let m = pattern();
    let v = tower("t", 4, vec![OBJ, NOBJ, ARR, MAP, ONEOF], json!({}));
    let c = Context { resolve_method: resolve("ctx.resolve"), ..tup() };
    eq_json(&v, &with_pattern(c, m), m);
}
/// text at three levels
fn c17_m2() {
    let a = titled("0", symrt::pick("leaf", vec![json!({"type": "integer"}), json!({}), json!({"type": "array", "items": {"type": "string", "title": "i"}})]));
    let gg = g(vec![json!({"type": "integer"})], vec![OBJ, NOBJ, ARR, MAP, PAT, TUP, ONEOF]);
    let b = titled("1", node(&gg, "s", a, json!({"type": "number", "description": "n"})));
    let c = titled("2", node(&gg, "t", b, json!({"type": "string", "title": "s"})));
    eq_bq(&c, &tup());
}

fn no_null(mut l: Vec<Value>) -> Vec<Value> {
    l.retain(|v| v["type"] != "null");
    l
}
/// is there a list of maps? (see c21_array_of_maps)
fn lists_of_maps(n: &spec::N) -> bool {
    match &n.l {
        spec::L::Arr(x) => matches!(x.l, spec::L::Map(_)) | lists_of_maps(x),
        spec::L::Map(x) => lists_of_maps(x),
        spec::L::Obj(fs, _) => {
            let mut r = false;
            for f in fs {
                r = r | lists_of_maps(&f.n);
            }
            r
        }
        spec::L::Tup(xs) => {
            let mut r = false;
            for x in xs {
                r = r | lists_of_maps(x);
            }
            r
        }
        _ => false,
    }
}
fn c18_m2() {
    let a = symrt::pick("s.0.0", no_null(mid()));
    let b = symrt::pick("s.0.1", no_null(two()));
    let t = node(&g(no_null(mid()), no_leaf()), "s.0", a, b);
    let u = symrt::pick("s.1", no_null(two()));
    let v = node(&g(no_null(mid()), no_leaf()), "s", t, u);
    let c = tup();
    if let Ok(n) = spec::table(&v, &c) {
        symrt::assume(!lists_of_maps(&n));
        common(&v, &c);
    }
}
fn c18_many() {
    common(&many(simple()), &Context::default());
}
fn c19_m2() {
    only_path(&comp(), &Context { resolve_method: symrt::pick("ctx.resolve", vec![ResolveMethod::Cast, ResolveMethod::Drop]), ..tup() });
}
fn c19_chain() {
    let leaf = json!({"type": "object", "properties": {"a": {"type": "object", "properties": {"x": {"type": "integer"}}}}});
    only_path(&tower("t", 5, vec![OBJ, NOBJ, ARR, MAP, TUP], leaf), &tup());
}
fn pair() -> (Value, Value) {
    let a = node(&g(mid(), no_leaf()), "a", symrt::pick("a.0", mid()), symrt::pick("a.1", two()));
    let b = node(&g(mid(), vec![OBJ, ARR, MAP, ONEOF, TUP]), "b", symrt::pick("b.0", mid()), symrt::pick("b.1", two()));
    let both = json!({"type": "object", "properties": {"a": a.clone(), "b": b}});
    (both, json!({"type": "object", "properties": {"a": a}}))
}
fn c20_m2_avro() {
    let (both, one) = pair();
    let c = Context { resolve_method: symrt::pick("ctx.resolve", vec![ResolveMethod::Cast, ResolveMethod::Drop]), ..tup() };
    symrt::show_json("schema", &both);
    let (x, y) = (avro(&both, &c), avro(&one, &c));
    if let Some(x) = &x {
        let y = y.unwrap_or(Value::Null);
        symrt::check(valid::column(x, "a") == valid::column(&y, "a"), "avro-column-independent");
    } else {
        symrt::check(y.is_none(), "avro-column-lost");
    }
}
fn c20_m2_bq() {
    let (both, one) = pair();
    let c = Context { resolve_method: symrt::pick("ctx.resolve", vec![ResolveMethod::Cast, ResolveMethod::Drop]), ..tup() };
    symrt::show_json("schema", &both);
    let (x, y) = (bq(&both, &c), bq(&one, &c));
    if let Some(x) = &x {
        let y = y.unwrap_or(Value::Null);
        symrt::check(valid::column(x, "a") == valid::column(&y, "a"), "bigquery-column-independent");
    } else {
        symrt::check(y.is_none(), "bigquery-column-lost");
    }
}
fn c20_many() {
    let v = many(simple());
    let c = Context { resolve_method: symrt::pick("ctx.resolve", vec![ResolveMethod::Cast, ResolveMethod::Drop]), ..Context::default() };
    eq_avro(&v, &c);
    eq_bq(&v, &c);
}
fn c22_m2_avro() {
    let (v, c) = (comp(), some(symrt::pick("ctx.resolve", vec![ResolveMethod::Cast, ResolveMethod::Drop])));
    symrt::show_json("schema", &v);
    agree(want_avro(&v, &c).map(|x| head(&x)), avro(&v, &c).map(|x| head(&x)), "avro-root");
}
fn c22_m2_bq() {
    let (v, c) = (comp(), some(symrt::pick("ctx.resolve", vec![ResolveMethod::Cast, ResolveMethod::Drop])));
    symrt::show_json("schema", &v);
    agree(want_bq(&v, &c).map(|x| heads(&x)), bq(&v, &c).map(|x| heads(&x)), "bigquery-root");
}
fn c23_m2_avro() {
    let (v, c) = (comp(), some(symrt::pick("ctx.resolve", vec![ResolveMethod::Cast, ResolveMethod::Drop])));
    symrt::show_json("schema", &v);
    let on = avro(&v, &Context { force_nullable: true, ..c.clone() });
    symrt::check(on == avro(&v, &c).map(|x| valid::avro_forced(&x)), "avro-only-nullability");
}
fn c23_m2_bq() {
    let (v, c) = (comp(), some(symrt::pick("ctx.resolve", vec![ResolveMethod::Cast, ResolveMethod::Drop])));
    symrt::show_json("schema", &v);
    let on = bq(&v, &Context { force_nullable: true, ..c.clone() });
    symrt::check(on == bq(&v, &c).map(|x| valid::bq_forced(&x)), "bigquery-only-nullability");
}
fn c25_m2_tuple() {
    let k = vec![OBJ, NOBJ, ARR, MAP, PAT, ONEOF];
    let (v, c) = (m2(k.clone(), k), some(symrt::pick("ctx.resolve", vec![ResolveMethod::Cast, ResolveMethod::Drop])));
    symrt::show_json("schema", &v);
    let off = Context { tuple_struct: false, ..c.clone() };
    symrt::check(avro(&v, &c) == avro(&v, &off), "avro-tuple-option");
    symrt::check(bq(&v, &c) == bq(&v, &off), "bigquery-tuple-option");
}
fn c25_m2_maps() {
    let (v, c) = (comp(), Context { resolve_method: symrt::pick("ctx.resolve", vec![ResolveMethod::Cast, ResolveMethod::Drop]), ..tup() });
    symrt::show_json("schema", &v);
    let on = Context { allow_maps_without_value: true, ..c.clone() };
    symrt::check(avro(&v, &on) == avro(&v, &c), "avro-map-option");
    let (x, y) = (bq(&v, &on), bq(&v, &c));
    if let ResolveMethod::Drop = c.resolve_method {
        if let (Some(x), Some(y)) = (&x, &y) {
            symrt::check(valid::bq_sub(y, x), "bigquery-map-option-adds");
        } else {
            symrt::check(y.is_none(), "bigquery-map-option-loses");
        }
    } else {
        symrt::check(x == y, "bigquery-map-option");
    }
}
fn c25_m2_case() {
    let (v, c) = (comp(), Context { resolve_method: symrt::pick("ctx.resolve", vec![ResolveMethod::Cast, ResolveMethod::Drop]), ..tup() });
    symrt::show_json("schema", &v);
    let on = Context { normalize_case: true, ..c.clone() };
    symrt::check(avro(&v, &on) == avro(&v, &c), "avro-case-option");
    symrt::check(bq(&v, &on) == bq(&v, &c), "bigquery-case-option");
}
fn c25_m2_regex() {
    let (v, c) = (comp(), tup());
    let m = symrt::pick("pattern", vec![1u32, 4, 6, 8]);
    symrt::show_json("schema", &v);
    let on = Context { json_object_path_regex: Some(spec::PATTERNS[m as usize].to_string()), ..c.clone() };
    symrt::check(avro(&v, &on) == avro(&v, &c), "avro-regex-option");
    symrt::check(bq(&v, &on).map(|x| no_json(&x)) == bq(&v, &c), "bigquery-regex-option");
}
fn c26_m2_bq() {
    let v = comp();
    let c = tup();
    let w = json!({"type": "object", "properties": {"p": v.clone()}, "required": ["p"]});
    symrt::show_json("schema", &w);
    let (x, y) = (bq(&v, &c), bq(&w, &c));
    match (&x, &y) {
        (Some(x), Some(y)) => {
            let col = &y[0];
            if x[0]["name"] == "root" {
                let mut z = x[0].clone();
                z["name"] = json!("p");
                symrt::check(&z == col, "bigquery-column-as-root");
            } else {
                symrt::check(col.get("fields") == Some(x), "bigquery-record-as-root");
            }
        }
        _ => symrt::check(false, "bigquery-whole-lost"),
    }
}
fn c26_m2_avro() {
    let v = comp();
    let c = tup();
    let w = json!({"type": "object", "properties": {"p": v.clone()}, "required": ["p"]});
    symrt::show_json("schema", &w);
    let (x, y) = (avro(&v, &c), avro(&w, &c));
    match (&x, &y) {
        (Some(x), Some(y)) => {
            let want = valid::avro_moved(x, "root", "root.p");
            let got = valid::column(y, "p").map(|f| f["type"].clone());
            symrt::check(got == Some(want), "avro-column-as-root");
        }
        _ => symrt::check(false, "avro-lost"),
    }
}

/// longer names that need every rule at once
fn odd_names() -> Vec<&'static str> {
    vec![
        "a-b.c", "9-lives", "HTTPServer2go", "x__y", "_", "__", "-", "a b", "\u{e9}t\u{e9}", "A1B2", "1", "1_", "ABC", "aBCd9", "timestamp.", ".x", "very_long_name_with_many_parts", "a$", "root", "list", "value", "key", "f0_", "\u{0663}x",
    ]
}
fn c11_odd() {
    used();
    let n = symrt::pick("name", odd_names());
    let r = symrt::pick("required", vec![n, "9-lives", "_", "HTTPServer2go"]);
    let mut inner = json!({"type": "object", "properties": {"z": {"type": "integer"}}, "required": []});
    inner["properties"][n] = symrt::pick("leaf", vec![json!({"type": "integer"}), json!({"type": "object", "properties": {"aB-c": {"type": "string"}}, "required": ["aB-c"]}), json!({})]);
    inner["required"] = json!([r, "z"]);
    let v = match symrt::any_choice("at", 5) {
        0 => inner,
        1 => json!({"type": "object", "properties": {"oR": inner}}),
        2 => json!({"type": "array", "items": inner}),
        3 => json!({"type": "object", "additionalProperties": inner}),
        _ => json!({"oneOf": [inner, {"type": "object", "properties": {"z": {"type": "integer"}}}]}),
    };
    let c = Context { normalize_case: symrt::any_bool("ctx.normalize_case"), ..tup() };
    eq_avro(&v, &c);
    eq_bq(&v, &c);
}
/// three properties that do not collide, in any position of the order
fn c11_three() {
    let names = vec!["a", "b-c", "B", "_a", "1x", "aB", "b.d", "Z9", "z_"];
    let (p, q, r) = (symrt::any_choice("p", 9), symrt::any_choice("q", 9), symrt::any_choice("r", 9));
    symrt::assume((p < q) & (q < r));
    let nc = symrt::any_bool("ctx.normalize_case");
    let mut v = json!({"type": "object", "properties": {}, "required": []});
    v["properties"][names[p]] = json!({"type": "integer"});
    v["properties"][names[q]] = json!({"type": "string"});
    v["properties"][names[r]] = json!({"type": "object", "properties": {"x": {"type": "boolean"}}, "required": ["x"]});
    v["required"] = json!([symrt::pick("required", names)]);
    let (a, b, d) = (spec::col_name(names_at(p), nc), spec::col_name(names_at(q), nc), spec::col_name(names_at(r), nc));
    symrt::assume((a != b) & (b != d) & (a != d));
    let c = Context { normalize_case: nc, ..Context::default() };
    eq_avro(&v, &c);
    eq_bq(&v, &c);
}
fn names_at(i: usize) -> &'static str {
    vec!["a", "b-c", "B", "_a", "1x", "aB", "b.d", "Z9", "z_"][i]
}
fn c12_long() {
    let n = symrt::any_string("name", 0, 8, "abAB11__");
    symrt::show("name", &n);
    symrt::check(jst::casing::to_snake_case(&n) == spec::snake(&n), "snake-case");
}
