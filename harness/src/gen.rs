//! Symbolic JSON schemas and contexts
use serde_json::{json, Value};

pub fn resolve(l: &str) -> jst::ResolveMethod {
    match symrt::any_choice(l, 3) {
        0 => jst::ResolveMethod::Cast,
        1 => jst::ResolveMethod::Drop,
        _ => jst::ResolveMethod::Panic,
    }
}
/// every option symbolic except the path regex
pub fn ctx() -> jst::Context {
    jst::Context {
        resolve_method: resolve("ctx.resolve"),
        normalize_case: symrt::any_bool("ctx.normalize_case"),
        force_nullable: symrt::any_bool("ctx.force_nullable"),
        tuple_struct: symrt::any_bool("ctx.tuple_struct"),
        allow_maps_without_value: symrt::any_bool("ctx.allow_maps"),
        json_object_path_regex: None,
    }
}
/// the process has converted other schemas with other options before
pub fn used() {
    let c = jst::Context {
        resolve_method: jst::ResolveMethod::Drop,
        normalize_case: true,
        force_nullable: true,
        tuple_struct: true,
        allow_maps_without_value: true,
        json_object_path_regex: Some("\\.zz".to_string()),
    };
    let v = json!({"type": "object", "properties": {
        "aB": {"type": "string", "title": "t", "format": "date-time"},
        "A": {"type": "array", "items": [{"type": "integer"}], "maxItems": 1},
        "b": {"type": "object", "additionalProperties": {}},
        "c": {},
        "a": {"oneOf": [{"type": "null"}, {"type": "object", "properties": {"x": {"type": "number"}}, "required": ["x"]}]}
    }, "required": ["aB"]});
    let _ = symrt::catch(|| jst::convert_avro(&v, c.clone()));
    let _ = symrt::catch(|| jst::convert_bigquery(&v, c.clone()));
}
pub fn with(r: jst::ResolveMethod) -> jst::Context {
    jst::Context { resolve_method: r, ..ctx() }
}
pub fn cast() -> jst::Context {
    with(jst::ResolveMethod::Cast)
}

pub fn atoms() -> Vec<Value> {
    vec![
        json!({"type": "boolean"}),
        json!({"type": "integer"}),
        json!({"type": "number"}),
        json!({"type": "string"}),
        json!({"type": "string", "format": "date-time"}),
        json!({"type": "string", "format": "bytes"}),
    ]
}
/// atoms, nulls and unspecified
pub fn leaves() -> Vec<Value> {
    let mut v = atoms();
    v.push(json!({"type": "null"}));
    v.push(json!({"type": ["integer", "null"]}));
    v.push(json!({"type": ["string", "integer"]}));
    v.push(json!({}));
    v.push(json!({"type": "object"}));
    v.push(json!({"type": "array"}));
    v
}
/// leaves, and small composites as leaves
pub fn wide() -> Vec<Value> {
    let mut v = leaves();
    v.push(json!({"type": "object", "properties": {}}));
    v.push(json!({"type": "object", "properties": {"x": {}}}));
    v.push(json!({"type": "object", "properties": {"x": {"type": "integer"}, "y": {}}, "required": ["x", "y"]}));
    v.push(json!({"type": ["object", "null"], "properties": {"x": {"type": "string"}}}));
    v.push(json!({"type": "array", "items": {"type": "integer"}}));
    v.push(json!({"type": "array", "items": {}}));
    v.push(json!({"type": ["array", "null"], "items": {"type": ["array", "null"], "items": {"type": "string"}}}));
    v.push(json!({"type": "object", "additionalProperties": {"type": ["number", "null"]}}));
    v.push(json!({"type": "object", "additionalProperties": {}}));
    v.push(json!({"type": "object", "additionalProperties": {"type": "object", "properties": {}}}));
    v.push(json!({"oneOf": [{"type": "integer"}, {"type": "null"}, {"type": "number"}]}));
    v.push(json!({"oneOf": [{"type": "object", "properties": {"x": {"type": "integer"}}, "required": ["x"]}, {"type": "object", "properties": {"x": {"type": "number"}, "y": {"type": "string"}}, "required": ["x"]}]}));
    v.push(json!({"oneOf": [{"type": "integer"}, {"type": "array", "items": {"type": "integer"}}]}));
    v.push(json!({"type": "array", "items": [{"type": "string"}, {}], "additionalItems": false, "minItems": 1}));
    v
}
/// the other child of a composite
pub fn second() -> Vec<Value> {
    vec![
        json!({"type": "integer"}),
        json!({"type": "number"}),
        json!({"type": "string"}),
        json!({"type": "null"}),
        json!({"type": ["string", "null"]}),
        json!({}),
        json!({"type": "object", "properties": {"x": {"type": "number"}, "z": {"type": "integer"}}, "required": ["z", "x"]}),
        json!({"type": "array", "items": {"type": "number"}}),
        json!({"type": "object", "additionalProperties": {"type": "integer"}}),
    ]
}
/// any composite over a wide child and another one
pub fn w1(kinds: Vec<u32>) -> Value {
    let a = symrt::pick("s.0", wide());
    let b = symrt::pick("s.1", second());
    node(&g(wide(), kinds), "s", a, b)
}
/// two levels of composites over a wide child
pub fn w2(outer: Vec<u32>, inner: Vec<u32>) -> Value {
    let a = symrt::pick("s.0.0", wide());
    let b = symrt::pick("s.0.1", second());
    let t = node(&g(wide(), inner), "s.0", a, b);
    let u = symrt::pick("s.1", second());
    node(&g(wide(), outer), "s", t, u)
}
pub fn mid() -> Vec<Value> {
    vec![
        json!({"type": "integer"}),
        json!({"type": ["string", "null"]}),
        json!({"type": "null"}),
        json!({}),
        json!({"type": "object", "properties": {}}),
        json!({"type": "object", "properties": {"x": {"type": "integer"}, "y": {}}, "required": ["x"]}),
        json!({"type": ["array", "null"], "items": {"type": "integer"}}),
        json!({"type": "object", "additionalProperties": {"type": ["integer", "null"]}}),
        json!({"oneOf": [{"type": "integer"}, {"type": "null"}]}),
    ]
}
pub fn two() -> Vec<Value> {
    vec![json!({"type": "number"}), json!({"type": "null"}), json!({}), json!({"type": "object", "properties": {"x": {"type": "number"}, "z": {"type": "string"}}, "required": ["x", "z"]})]
}
/// as w2, over fewer schemas
pub fn m2(outer: Vec<u32>, inner: Vec<u32>) -> Value {
    let a = symrt::pick("s.0.0", mid());
    let b = symrt::pick("s.0.1", two());
    let t = node(&g(mid(), inner), "s.0", a, b);
    let u = symrt::pick("s.1", two());
    node(&g(mid(), outer), "s", t, u)
}
pub fn any_kinds() -> Vec<u32> {
    vec![LEAF, OBJ, NOBJ, ARR, MAP, PAT, ONEOF, TUP]
}
pub fn few() -> Vec<Value> {
    vec![
        json!({"type": "integer"}),
        json!({"type": "number"}),
        json!({"type": "string"}),
        json!({"type": ["integer", "null"]}),
        json!({"type": "null"}),
        json!({}),
    ]
}

pub const LEAF: u32 = 0;
pub const OBJ: u32 = 1;
pub const ARR: u32 = 2;
pub const MAP: u32 = 3;
pub const ONEOF: u32 = 4;
pub const NOBJ: u32 = 5; // nullable object
pub const TUP: u32 = 6;
pub const PAT: u32 = 7;

pub struct G {
    pub leaves: Vec<Value>,
    pub kinds: Vec<u32>,
    pub names: [&'static str; 2],
    /// may required be absent?
    pub opt_required: bool,
}
pub fn g(leaves: Vec<Value>, kinds: Vec<u32>) -> G {
    G { leaves, kinds, names: ["a", "b"], opt_required: true }
}
pub fn lbl(l: &str, s: &str) -> String {
    format!("{}.{}", l, s)
}
/// an object over up to two properties
pub fn obj(g: &G, l: &str, a: Value, b: Value) -> Value {
    let mut v = json!({"type": "object", "properties": {}});
    if symrt::any_bool(&lbl(l, "has0")) {
        v["properties"][g.names[0]] = a;
    }
    if symrt::any_bool(&lbl(l, "has1")) {
        v["properties"][g.names[1]] = b;
    }
    let mut req = vec![];
    if symrt::any_bool(&lbl(l, "req0")) {
        req.push(json!(g.names[0]));
    }
    if symrt::any_bool(&lbl(l, "req1")) {
        req.push(json!(g.names[1]));
    }
    if !g.opt_required || !req.is_empty() || symrt::any_bool(&lbl(l, "req")) {
        v["required"] = Value::Array(req);
    }
    v
}
pub fn schema(g: &G, l: &str, d: u32) -> Value {
    if d == 0 {
        return symrt::pick(&lbl(l, "leaf"), g.leaves.clone());
    }
    let a = schema(g, &lbl(l, "0"), d - 1);
    let b = schema(g, &lbl(l, "1"), d - 1);
    node(g, l, a, b)
}
fn maybe_null(l: &str, t: &str, may: bool) -> Value {
    if may && symrt::any_bool(&lbl(l, "null")) {
        json!(["null", t])
    } else {
        json!(t)
    }
}
/// one node over two given children
pub fn node(g: &G, l: &str, a: Value, b: Value) -> Value {
    node_of(g, l, a, b, true)
}
/// with nullable arrays and maps, and optional tuple elements, if `more`
pub fn node_of(g: &G, l: &str, a: Value, b: Value, more: bool) -> Value {
    let k = symrt::pick(&lbl(l, "kind"), g.kinds.clone());
    match k {
        LEAF => symrt::pick(&lbl(l, "leaf"), g.leaves.clone()),
        OBJ => obj(g, l, a, b),
        NOBJ => {
            let mut v = obj(g, l, a, b);
            v["type"] = json!(["object", "null"]);
            v
        }
        ARR => json!({"type": maybe_null(l, "array", more), "items": a}),
        MAP => json!({"type": maybe_null(l, "object", more), "additionalProperties": a}),
        PAT => {
            let mut v = json!({"type": "object", "patternProperties": {"^x": a}});
            if symrt::any_bool(&lbl(l, "add")) {
                v["additionalProperties"] = b;
            }
            v
        }
        TUP => {
            let mut v = json!({"type": "array", "items": [a, b], "additionalItems": false});
            if more && symrt::any_bool(&lbl(l, "optional")) {
                v["minItems"] = json!(0);
            }
            v
        }
        _ => json!({"oneOf": [a, b]}),
    }
}

/// every type/format combination
pub fn typed(l: &str) -> Value {
    let mut v = json!({});
    v["type"] = symrt::pick(
        &lbl(l, "type"),
        vec![
            json!("boolean"),
            json!("integer"),
            json!("number"),
            json!("string"),
            json!("null"),
            json!(["string"]),
            json!(["integer", "null"]),
            json!(["null", "boolean"]),
            json!(["number", "integer"]),
            json!(["string", "boolean"]),
        ],
    );
    let f = symrt::any_choice(&lbl(l, "format"), 6);
    if f > 0 {
        v["format"] = symrt::pick(
            &lbl(l, "fmt"),
            vec![json!("date-time"), json!("bytes"), json!("json"), json!("email"), json!("date")],
        );
    }
    v
}
/// one branch of nesting: every level is a node over (deeper, second)
pub fn chain(g: &G, l: &str, d: u32, leaf: Value) -> Value {
    let mut v = leaf;
    let mut i = 0;
    while i < d {
        let second = symrt::pick(&lbl(l, &format!("{}.second", i)), g.leaves.clone());
        v = node_of(g, &lbl(l, &format!("{}", i)), v, second, false);
        i += 1;
    }
    v
}
/// two of the three are given an order by a symbolic permutation
pub fn perm3(l: &str, a: Value, b: Value, c: Value) -> Value {
    match symrt::any_choice(l, 6) {
        0 => json!([a, b, c]),
        1 => json!([a, c, b]),
        2 => json!([b, a, c]),
        3 => json!([b, c, a]),
        4 => json!([c, a, b]),
        _ => json!([c, b, a]),
    }
}
