//! Reference semantics, written from the documentation: what a JSON schema means as a table type, and how that type
//! is spelled in Avro and in BigQuery. Independent of the code under test.
use jst::{Context, ResolveMethod};
use serde_json::{json, Value};

#[derive(Clone)]
pub enum L {
    Null,
    Json,
    Bool,
    Int,
    Num,
    Str,
    Ts,
    Bytes,
    /// columns, and every name that is required
    Obj(Vec<F>, Vec<String>),
    Map(Box<N>),
    Arr(Box<N>),
    Tup(Vec<N>),
}
#[derive(Clone)]
pub struct N {
    pub l: L,
    pub nullable: bool,
    pub doc: Option<String>,
}
#[derive(Clone)]
pub struct F {
    pub name: String,
    pub n: N,
}

fn mk(l: L) -> N {
    N { l, nullable: false, doc: None }
}
fn null() -> N {
    N { l: L::Null, nullable: true, doc: None }
}

/// column name of a property (None: omitted)
pub fn col_name(p: &str, normalize: bool) -> Option<String> {
    let mut out = String::new();
    for (i, c) in p.chars().enumerate() {
        let c = if c == '.' || c == '-' { '_' } else { c };
        if i == 0 && c.is_ascii_digit() {
            out.push('_');
        }
        if !(c == '_' || c.is_ascii_alphanumeric()) {
            return None;
        }
        out.push(c);
    }
    if out.is_empty() {
        return None;
    }
    if !normalize {
        return Some(out);
    }
    let s = snake(&out);
    match s.chars().next() {
        None => None,
        Some(c) if c.is_ascii_digit() => Some(format!("_{}", s)),
        Some(_) => Some(s),
    }
}

/// snake_case of an ASCII name. Words are separated by anything but letters and digits, by a change from lower to
/// upper case, and before the last capital of a run that is followed by a lower case letter; a digit has the case of
/// the letter before it.
pub fn snake(p: &str) -> String {
    let mut out = String::new();
    let mut prev_lower = false; // case of the most recent letter of the word
    let mut prev_upper = false;
    let mut pending = false; // a word boundary was seen
    let mut it = p.chars().peekable();
    while let Some(c) = it.next() {
        if !c.is_ascii_alphanumeric() {
            pending = !out.is_empty();
            prev_lower = false;
            prev_upper = false;
            continue;
        }
        let next_lower = match it.peek() {
            Some(n) => n.is_ascii_lowercase(),
            None => false,
        };
        let up = c.is_ascii_uppercase();
        if up & (prev_lower | (prev_upper & next_lower)) {
            pending = true;
        }
        if pending {
            out.push('_');
            pending = false;
        }
        out.push(c.to_ascii_lowercase());
        if c.is_ascii_alphabetic() {
            prev_upper = up;
            prev_lower = !up;
        }
    }
    out
}

fn text(s: &Value, k: &str) -> Option<String> {
    match s.get(k) {
        Some(Value::String(x)) => Some(x.clone()),
        _ => None,
    }
}
fn doc_of(s: &Value) -> Option<String> {
    match (text(s, "title"), text(s, "description")) {
        (Some(t), Some(d)) => Some(format!("{} - {}", t, d)),
        (Some(t), None) => Some(t),
        (None, d) => d,
    }
}

/// the table type of a schema; Err: the tuple description is not supported
pub fn ty(s: &Value, c: &Context) -> Result<N, ()> {
    let mut n = match s.get("type") {
        Some(Value::String(t)) => simple(s, t, true, c)?,
        Some(Value::Array(ts)) => {
            let mut alts = vec![];
            for t in ts {
                if let Value::String(t) = t {
                    alts.push(simple(s, t, false, c)?);
                }
            }
            union(&alts)
        }
        _ => object(s, c)?,
    };
    n.doc = doc_of(s);
    Ok(n)
}

fn simple(s: &Value, t: &str, fmt: bool, c: &Context) -> Result<N, ()> {
    Ok(match t {
        "null" => null(),
        "boolean" => mk(L::Bool),
        "integer" => mk(L::Int),
        "number" => mk(L::Num),
        "string" => mk(match s.get("format") {
            Some(Value::String(f)) if fmt && f == "date-time" => L::Ts,
            Some(Value::String(f)) if fmt && f == "bytes" => L::Bytes,
            _ => L::Str,
        }),
        "array" => array(s, c)?,
        _ => object(s, c)?,
    })
}

fn array(s: &Value, c: &Context) -> Result<N, ()> {
    match s.get("items") {
        None => Ok(mk(L::Json)),
        Some(Value::Array(items)) => {
            if !c.tuple_struct {
                return Ok(mk(L::Json));
            }
            let len = items.len() as u64;
            let min = s.get("minItems").and_then(|v| v.as_u64()).unwrap_or(len);
            let max = s.get("maxItems").and_then(|v| v.as_u64()).unwrap_or(0);
            let mut out = vec![];
            let mut i = 0;
            for t in items {
                let mut n = ty(t, c)?;
                if i >= min {
                    n.nullable = true;
                }
                out.push(n);
                i += 1;
            }
            match s.get("additionalItems") {
                Some(Value::Bool(false)) => {}
                Some(add @ Value::Object(_)) => {
                    if max < len {
                        return Err(());
                    }
                    for _ in len..max {
                        let mut n = ty(add, c)?;
                        n.nullable = true;
                        out.push(n);
                    }
                }
                None if max == len => {}
                _ => return Err(()),
            }
            Ok(mk(L::Tup(out)))
        }
        Some(item) => Ok(mk(L::Arr(Box::new(ty(item, c)?)))),
    }
}

fn object(s: &Value, c: &Context) -> Result<N, ()> {
    if let Some(Value::Object(ps)) = s.get("properties") {
        let req = required(s, c);
        let mut fs: Vec<F> = vec![];
        for (k, v) in ps {
            if let Some(name) = col_name(k, c.normalize_case) {
                let mut n = ty(v, c)?;
                n.nullable = n.nullable | !has(&req, &name);
                fs.push(F { name, n });
            }
        }
        return Ok(mk(L::Obj(fs, req)));
    }
    let mut vals = vec![];
    if let Some(add @ Value::Object(_)) = s.get("additionalProperties") {
        vals.push(ty(add, c)?);
    }
    if let Some(Value::Object(ps)) = s.get("patternProperties") {
        for (_, v) in ps {
            vals.push(ty(v, c)?);
        }
    }
    if !vals.is_empty() {
        let v = if vals.len() == 1 { vals.pop().unwrap() } else { union(&vals) };
        return Ok(mk(L::Map(Box::new(v))));
    }
    if let Some(Value::Array(alts)) = s.get("oneOf") {
        let mut v = vec![];
        for a in alts {
            v.push(ty(a, c)?);
        }
        return Ok(union(&v));
    }
    Ok(mk(L::Json))
}

fn required(s: &Value, c: &Context) -> Vec<String> {
    let mut out = vec![];
    if let Some(Value::Array(req)) = s.get("required") {
        for x in req {
            if let Value::String(x) = x {
                if let Some(y) = col_name(x, c.normalize_case) {
                    out.push(y);
                }
            }
        }
    }
    out
}
fn has(req: &[String], name: &str) -> bool {
    let mut r = false;
    for x in req {
        r = r | (x == name);
    }
    r
}

/// one table type for all alternatives
pub fn union(alts: &[N]) -> N {
    let mut nullable = false;
    let mut acc: Option<L> = None;
    for a in alts {
        nullable = nullable | a.nullable;
        if let L::Null = a.l {
            nullable = true;
            continue;
        }
        acc = Some(match acc {
            // tuples have no common type with anything
            None if alts.len() > 1 => match a.l {
                L::Tup(_) => L::Json,
                _ => a.l.clone(),
            },
            None => a.l.clone(),
            Some(x) => merge(x, &a.l),
        });
    }
    N { l: acc.unwrap_or(L::Null), nullable, doc: None }
}

fn merge(a: L, b: &L) -> L {
    match (a, b) {
        (L::Bool, L::Bool) => L::Bool,
        (L::Str, L::Str) => L::Str,
        (L::Ts, L::Ts) => L::Ts,
        (L::Bytes, L::Bytes) => L::Bytes,
        (L::Int, L::Int) => L::Int,
        (L::Num, L::Num) | (L::Int, L::Num) | (L::Num, L::Int) => L::Num,
        (L::Arr(x), L::Arr(y)) => L::Arr(Box::new(union(&[*x, (**y).clone()]))),
        (L::Map(x), L::Map(y)) => L::Map(Box::new(union(&[*x, (**y).clone()]))),
        (L::Obj(x, r), L::Obj(y, q)) => merge_obj(x, r, y, q),
        _ => L::Json,
    }
}

fn merge_obj(x: Vec<F>, r: Vec<String>, y: &[F], q: &[String]) -> L {
    let mut req = vec![];
    for n in r {
        if has(q, &n) {
            req.push(n);
        }
    }
    let mut out: Vec<F> = vec![];
    for f in &x {
        let mut same = None;
        for g in y {
            if g.name == f.name {
                same = Some(g.clone());
            }
        }
        let mut n = match same {
            None => union(&[f.n.clone()]),
            Some(g) => union(&[f.n.clone(), g.n]),
        };
        n.nullable = n.nullable | !has(&req, &f.name);
        out.push(F { name: f.name.clone(), n });
    }
    for g in y {
        if !x.iter().any(|f| f.name == g.name) {
            let mut n = union(&[g.n.clone()]);
            n.nullable = n.nullable | !has(&req, &g.name);
            out.push(F { name: g.name.clone(), n });
        }
    }
    // a property without a common type makes the whole object unstructured
    for f in &out {
        if let L::Json = f.n.l {
            return L::Json;
        }
    }
    L::Obj(out, req)
}

pub fn force(n: &mut N) {
    n.nullable = true;
    match &mut n.l {
        L::Obj(fs, _) => {
            for f in fs {
                force(&mut f.n)
            }
        }
        L::Map(x) | L::Arr(x) => force(x),
        L::Tup(xs) => {
            for x in xs {
                force(x)
            }
        }
        _ => {}
    }
}

/// the type with the options applied
pub fn table(s: &Value, c: &Context) -> Result<N, ()> {
    let mut n = ty(s, c)?;
    if c.force_nullable {
        force(&mut n);
    }
    Ok(n)
}

fn sorted(fs: &[F]) -> Vec<F> {
    let mut v: Vec<F> = fs.to_vec();
    v.sort_by(|a, b| a.name.cmp(&b.name));
    v
}

fn cast(c: &Context) -> bool {
    !matches!(c.resolve_method, ResolveMethod::Drop)
}

/// does the type contain something that the resolve method has to decide?
pub fn under_avro(n: &N) -> bool {
    match &n.l {
        L::Json => true,
        L::Obj(fs, _) => fs.is_empty() || fs.iter().any(|f| under_avro(&f.n)),
        L::Map(x) | L::Arr(x) => under_avro(x),
        L::Tup(xs) => xs.iter().any(under_avro),
        _ => false,
    }
}
pub fn under_bq(n: &N) -> bool {
    match &n.l {
        L::Json | L::Null => true,
        L::Obj(fs, _) => fs.is_empty() || fs.iter().any(|f| under_bq(&f.n)),
        L::Map(x) | L::Arr(x) => under_bq(x),
        L::Tup(xs) => xs.iter().any(under_bq),
        _ => false,
    }
}

/// Avro type; None: dropped
pub fn avro(n: &N, name: &str, ns: &str, c: &Context) -> Option<Value> {
    let path = if ns.is_empty() { name.to_string() } else { format!("{}.{}", ns, name) };
    let p = |t: &str| Some(json!({ "type": t }));
    let t = match &n.l {
        L::Null => return Some(json!({"type": "null"})),
        L::Bool => p("boolean"),
        L::Int => p("long"),
        L::Num => p("double"),
        L::Str | L::Ts => p("string"),
        L::Bytes => p("bytes"),
        L::Json => {
            if cast(c) {
                p("string")
            } else {
                None
            }
        }
        L::Obj(fs, _) => {
            let mut out = vec![];
            for f in sorted(fs) {
                if let Some(v) = avro(&f.n, &f.name, &path, c) {
                    out.push(field(&f.name, v, f.n.nullable));
                }
            }
            if out.is_empty() {
                if cast(c) {
                    p("string")
                } else {
                    None
                }
            } else {
                Some(record(name, ns, out))
            }
        }
        L::Tup(xs) => {
            let mut out = vec![];
            for (i, x) in xs.iter().enumerate() {
                let f = format!("f{}_", i);
                if let Some(v) = avro(x, &f, &path, c) {
                    out.push(field(&f, v, x.nullable));
                }
            }
            Some(record(name, ns, out))
        }
        L::Arr(x) => match avro(x, "list", &path, c) {
            None => None,
            Some(v) => {
                if let L::Arr(_) = x.l {
                    Some(json!({"type": "array", "items": record(name, ns, vec![json!({"name": "list", "type": v})])}))
                } else {
                    Some(json!({"type": "array", "items": v}))
                }
            }
        },
        L::Map(x) => match avro(x, "value", &path, c) {
            None => None,
            Some(v) => Some(json!({"type": "map", "values": v})),
        },
    };
    match t {
        None => None,
        Some(t) => Some(if n.nullable { json!([{"type": "null"}, t]) } else { t }),
    }
}
fn field(name: &str, t: Value, nullable: bool) -> Value {
    let mut f = json!({"name": name, "type": t});
    if nullable {
        f["default"] = Value::Null;
    }
    f
}
fn record(name: &str, ns: &str, fields: Vec<Value>) -> Value {
    let mut r = json!({"type": "record", "name": name, "fields": fields});
    if !ns.is_empty() {
        r["namespace"] = json!(ns);
    }
    r
}

/// does the column path match the pattern number `m`? (see `PATTERNS`)
pub fn path_matches(m: u32, p: &str) -> bool {
    match m {
        0 => false,
        1 => p.starts_with("a"),
        2 => p.starts_with("a") | p.starts_with("b"),
        3 => p.starts_with("a.b"),
        4 => p == "b" || p.ends_with(".b"),
        5 => p.starts_with("b.list"),
        6 => true,
        7 => p == "a",
        8 => p.starts_with("a.") & p.ends_with(".value"),
        9 => p.starts_with("list") | p.starts_with("a.b"),
        _ => p.starts_with("a_b"),
    }
}
pub const PATTERNS: [&str; 11] = ["", "a", "a|b", "a\\.b", "(.*\\.)?b$", "b\\.list", "", "a$", "a\\..*value$", "list|a\\.b", "a_b"];

/// what the resolve method has to decide, columns at matching paths aside
pub fn under_bq_at(n: &N, path: &str, m: u32) -> bool {
    match &n.l {
        L::Json => !path_matches(m, path),
        L::Null => true,
        L::Obj(fs, _) => fs.is_empty() || fs.iter().any(|f| under_bq_at(&f.n, &sub(path, &f.name), m)),
        L::Map(x) => under_bq_at(x, &sub(path, "value"), m),
        L::Arr(x) => under_bq_at(x, &sub(path, "list"), m),
        L::Tup(xs) => xs.iter().enumerate().any(|(i, x)| under_bq_at(x, &sub(path, &format!("f{}_", i)), m)),
        _ => false,
    }
}
fn sub(path: &str, name: &str) -> String {
    if path.is_empty() {
        name.to_string()
    } else {
        format!("{}.{}", path, name)
    }
}

/// BigQuery column without its name; None: dropped
pub fn bq(n: &N, c: &Context) -> Option<Value> {
    bq_at(n, c, "", 0)
}
pub fn bq_at(n: &N, c: &Context, path: &str, m: u32) -> Option<Value> {
    let p = |t: &str| Some(json!({ "type": t }));
    let fallback = || if cast(c) { Some(json!({"type": "STRING"})) } else { None };
    let mut col = match &n.l {
        L::Bool => p("BOOL"),
        L::Int => p("INT64"),
        L::Num => p("FLOAT64"),
        L::Str => p("STRING"),
        L::Ts => p("TIMESTAMP"),
        L::Bytes => p("BYTES"),
        L::Json if path_matches(m, path) => p("JSON"),
        L::Null | L::Json => fallback(),
        L::Obj(fs, _) => {
            let mut out = vec![];
            for f in sorted(fs) {
                if let Some(v) = bq_at(&f.n, c, &sub(path, &f.name), m) {
                    out.push(named(&f.name, v));
                }
            }
            if out.is_empty() {
                fallback()
            } else {
                Some(json!({"type": "RECORD", "fields": out}))
            }
        }
        L::Tup(xs) => {
            let mut out = vec![];
            // BigQuery columns are sorted by name, those of tuples too
            let mut by_name: Vec<(String, &N)> = xs.iter().enumerate().map(|(i, x)| (format!("f{}_", i), x)).collect();
            by_name.sort_by(|a, b| a.0.cmp(&b.0));
            for (f, x) in by_name {
                match bq_at(x, c, &sub(path, &f), m) {
                    None => return None,
                    Some(v) => out.push(named(&f, v)),
                }
            }
            Some(json!({"type": "RECORD", "fields": out}))
        }
        L::Arr(x) => match bq_at(x, c, &sub(path, "list"), m) {
            None => None,
            Some(v) => {
                if let L::Arr(_) = x.l {
                    Some(json!({"type": "RECORD", "fields": [named("list", v)]}))
                } else {
                    let mut o = json!({"type": v["type"]});
                    if let Some(fs) = v.get("fields") {
                        o["fields"] = fs.clone();
                    }
                    Some(o)
                }
            }
        },
        L::Map(x) => {
            let key = json!({"name": "key", "type": "STRING", "mode": if c.force_nullable { "NULLABLE" } else { "REQUIRED" }});
            match bq_at(x, c, &sub(path, "value"), m) {
                Some(v) => Some(json!({"type": "RECORD", "fields": [key, named("value", v)]})),
                None if c.allow_maps_without_value => Some(json!({"type": "RECORD", "fields": [key]})),
                None => None,
            }
        }
    }?;
    col["mode"] = json!(match &n.l {
        L::Arr(_) | L::Map(_) => "REPEATED",
        _ if n.nullable => "NULLABLE",
        _ => "REQUIRED",
    });
    if let Some(d) = &n.doc {
        let mut t = String::new();
        let mut k = 0;
        for ch in d.chars() {
            if k < 1024 {
                t.push(ch);
            }
            k += 1;
        }
        col["description"] = json!(t);
    }
    Some(col)
}
fn named(name: &str, mut v: Value) -> Value {
    v["name"] = json!(name);
    v
}

/// the whole BigQuery schema
pub fn bq_schema(n: &N, c: &Context) -> Option<Value> {
    bq_schema_at(n, c, 0)
}
pub fn bq_schema_at(n: &N, c: &Context, m: u32) -> Option<Value> {
    let col = bq_at(n, c, "", m)?;
    let rec = match &n.l {
        L::Obj(..) | L::Tup(_) => col.get("fields").is_some(),
        _ => false,
    };
    if rec {
        Some(col["fields"].clone())
    } else {
        Some(json!([named("root", col)]))
    }
}
pub fn avro_schema(n: &N, c: &Context) -> Option<Value> {
    avro(n, "root", "", c)
}
