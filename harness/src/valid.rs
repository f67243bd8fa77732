//! Validity of the outputs, and projections of them
use serde_json::{json, Value};

fn name_ok(n: &str) -> bool {
    let mut first = true;
    for c in n.chars() {
        if !(c == '_' || c.is_ascii_alphabetic() || (!first && c.is_ascii_digit())) {
            return false;
        }
        first = false;
    }
    !first
}
fn str_at<'a>(v: &'a Value, k: &str) -> &'a str {
    match v.get(k) {
        Some(Value::String(s)) => s,
        _ => "",
    }
}
fn list_at<'a>(v: &'a Value, k: &str) -> &'a [Value] {
    match v.get(k) {
        Some(Value::Array(s)) => s,
        _ => &[],
    }
}
pub fn distinct(v: &[String]) -> bool {
    let mut i = 0;
    while i < v.len() {
        let mut j = 0;
        while j < i {
            if v[i] == v[j] {
                return false;
            }
            j += 1;
        }
        i += 1;
    }
    true
}

/// a valid Avro schema of the shapes the documentation describes
pub fn avro_ok(v: &Value) -> bool {
    match v {
        Value::Array(u) => {
            u.len() == 2 && str_at(&u[0], "type") == "null" && !u[1].is_array() && str_at(&u[1], "type") != "null" && avro_ok(&u[1])
        }
        Value::Object(_) => match str_at(v, "type") {
            "null" | "boolean" | "int" | "long" | "float" | "double" | "bytes" | "string" => true,
            "array" => v.get("items").map(avro_ok).unwrap_or(false),
            "map" => v.get("values").map(avro_ok).unwrap_or(false),
            "record" => {
                if !name_ok(str_at(v, "name")) {
                    return false;
                }
                if let Some(ns) = v.get("namespace") {
                    match ns {
                        Value::String(ns) => {
                            if !ns.split('.').all(name_ok) {
                                return false;
                            }
                        }
                        _ => return false,
                    }
                }
                let mut names = vec![];
                for f in list_at(v, "fields") {
                    let n = str_at(f, "name");
                    if !name_ok(n) {
                        return false;
                    }
                    names.push(n.to_string());
                    let t = match f.get("type") {
                        Some(t) => t,
                        None => return false,
                    };
                    if !avro_ok(t) {
                        return false;
                    }
                    let nullable = t.is_array() || str_at(t, "type") == "null";
                    match f.get("default") {
                        Some(Value::Null) if nullable => {}
                        None => {}
                        _ => return false,
                    }
                }
                distinct(&names)
            }
            _ => false,
        },
        _ => false,
    }
}
pub fn avro_full_names(v: &Value, out: &mut Vec<String>) {
    match v {
        Value::Array(u) => {
            for x in u {
                avro_full_names(x, out)
            }
        }
        Value::Object(_) => match str_at(v, "type") {
            "array" => avro_full_names(&v["items"], out),
            "map" => avro_full_names(&v["values"], out),
            "record" => {
                out.push(format!("{}.{}", str_at(v, "namespace"), str_at(v, "name")));
                for f in list_at(v, "fields") {
                    avro_full_names(&f["type"], out)
                }
            }
            _ => {}
        },
        _ => {}
    }
}

fn column_ok(v: &Value) -> bool {
    if !name_ok(str_at(v, "name")) {
        return false;
    }
    match str_at(v, "mode") {
        "REQUIRED" | "NULLABLE" | "REPEATED" => {}
        _ => return false,
    }
    if let Some(d) = v.get("description") {
        match d {
            Value::String(d) if d.chars().count() <= 1024 => {}
            _ => return false,
        }
    }
    match str_at(v, "type") {
        "INT64" | "FLOAT64" | "BOOL" | "STRING" | "BYTES" | "TIMESTAMP" | "JSON" => v.get("fields").is_none(),
        "RECORD" => columns_ok(list_at(v, "fields")),
        _ => false,
    }
}
fn columns_ok(fs: &[Value]) -> bool {
    let mut names = vec![];
    for f in fs {
        if !column_ok(f) {
            return false;
        }
        names.push(str_at(f, "name").to_string());
    }
    !fs.is_empty() && distinct(&names)
}
/// a schema that BigQuery accepts
pub fn bq_ok(v: &Value) -> bool {
    match v {
        Value::Array(fs) => columns_ok(fs),
        _ => false,
    }
}

/// columns and types; nullability erased
pub fn avro_types(v: &Value) -> Value {
    avro_shape(v, true, false)
}
/// columns and nullability; leaf types erased
pub fn avro_nulls(v: &Value) -> Value {
    avro_shape(v, false, true)
}
fn avro_shape(v: &Value, types: bool, nulls: bool) -> Value {
    match v {
        Value::Array(u) => {
            let x = match u.last() {
                Some(x) => avro_shape(x, types, nulls),
                None => json!("empty"),
            };
            if nulls {
                let mut y = vec![json!("null")];
                y.push(x);
                Value::Array(y)
            } else {
                x
            }
        }
        _ => match str_at(v, "type") {
            "record" => {
                let mut out = vec![];
                for f in list_at(v, "fields") {
                    let mut o = json!({});
                    o["name"] = f["name"].clone();
                    o["type"] = avro_shape(&f["type"], types, nulls);
                    if nulls {
                        if let Some(d) = f.get("default") {
                            o["default"] = d.clone();
                        }
                    }
                    out.push(o);
                }
                let mut o = json!({});
                o["record"] = Value::Array(out);
                o
            }
            "array" => {
                let mut o = json!({});
                o["array"] = avro_shape(&v["items"], types, nulls);
                o
            }
            "map" => {
                let mut o = json!({});
                o["map"] = avro_shape(&v["values"], types, nulls);
                o
            }
            "null" => json!("null"),
            _ if types => v["type"].clone(),
            _ => json!("leaf"),
        },
    }
}
pub fn bq_types(v: &Value) -> Value {
    bq_shape(v, true, false)
}
pub fn bq_modes(v: &Value) -> Value {
    bq_shape(v, false, true)
}
fn bq_shape(v: &Value, types: bool, modes: bool) -> Value {
    match v {
        Value::Array(fs) => {
            let mut out = vec![];
            for f in fs {
                let mut o = json!({});
                o["name"] = f["name"].clone();
                let mode = str_at(f, "mode");
                o["mode"] = if modes || mode == "REPEATED" { f["mode"].clone() } else { json!("") };
                match str_at(f, "type") {
                    "RECORD" => o["type"] = bq_shape(&f["fields"], types, modes),
                    _ if types => o["type"] = f["type"].clone(),
                    _ => {}
                }
                out.push(o);
            }
            Value::Array(out)
        }
        _ => json!("not a list"),
    }
}

/// column names only
pub fn avro_names(v: &Value) -> Value {
    avro_shape(v, false, false)
}
pub fn bq_names(v: &Value) -> Value {
    bq_shape(v, false, false)
}

/// `a` is `b` without some of its columns
pub fn bq_sub(a: &Value, b: &Value) -> bool {
    let (xs, ys) = match (a, b) {
        (Value::Array(xs), Value::Array(ys)) => (xs, ys),
        _ => return false,
    };
    let mut ok = true;
    for x in xs {
        let mut found = false;
        for y in ys {
            if x["name"] == y["name"] {
                found = found
                    | ((x["type"] == y["type"]) & (x["mode"] == y["mode"]) & (x.get("description") == y.get("description")) & match (x.get("fields"), y.get("fields")) {
                        (None, None) => true,
                        (Some(p), Some(q)) => bq_sub(p, q),
                        _ => false,
                    });
            }
        }
        ok = ok & found;
    }
    ok
}
pub fn avro_sub(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != 2 || y.len() != 2 {
                return false;
            }
            (x[0] == y[0]) & avro_sub(&x[1], &y[1])
        }
        (Value::Object(_), Value::Object(_)) => {
            if str_at(a, "type") != str_at(b, "type") {
                return false;
            }
            match str_at(a, "type") {
                "record" => {
                    let mut ok = (a["name"] == b["name"]) & (a.get("namespace") == b.get("namespace")) & (a.get("doc") == b.get("doc"));
                    for x in list_at(a, "fields") {
                        let mut found = false;
                        for y in list_at(b, "fields") {
                            if x["name"] == y["name"] {
                                found = found | ((x.get("default") == y.get("default")) & avro_sub(&x["type"], &y["type"]));
                            }
                        }
                        ok = ok & found;
                    }
                    ok
                }
                "array" => avro_sub(&a["items"], &b["items"]),
                "map" => avro_sub(&a["values"], &b["values"]),
                _ => a == b,
            }
        }
        _ => false,
    }
}

/// the structure that both formats share: columns, types, nullability
pub fn avro_common(v: &Value) -> Value {
    match v {
        Value::Array(u) => match u.last() {
            Some(x) => avro_common(x),
            None => json!("empty"),
        },
        _ => match str_at(v, "type") {
            "record" => {
                let mut out = vec![];
                for f in list_at(v, "fields") {
                    out.push(avro_col(&f["name"], &f["type"]));
                }
                Value::Array(out)
            }
            "boolean" => json!("BOOL"),
            "long" => json!("INT64"),
            "double" => json!("FLOAT64"),
            "bytes" => json!("BYTES"),
            t => json!(t),
        },
    }
}
fn avro_col(name: &Value, t: &Value) -> Value {
    let (nullable, inner) = match t {
        Value::Array(u) => (true, u.last().unwrap_or(t)),
        _ => (str_at(t, "type") == "null", t),
    };
    let mut o = json!({});
    o["name"] = name.clone();
    match str_at(inner, "type") {
        "array" => {
            o["mode"] = json!("REPEATED");
            o["type"] = avro_common(&inner["items"]);
        }
        "map" => {
            o["mode"] = json!("REPEATED");
            let mut key = json!({});
            key["name"] = json!("key");
            o["type"] = json!(["key", "value"]);
            o["type"][0] = json!("key");
            o["type"][1] = avro_col(&json!("value"), &inner["values"]);
        }
        _ => {
            o["mode"] = json!(if nullable { "NULLABLE" } else { "REQUIRED" });
            o["type"] = avro_common(inner);
        }
    }
    o
}
pub fn bq_common(v: &Value) -> Value {
    let mut out = vec![];
    if let Value::Array(fs) = v {
        for f in fs {
            out.push(bq_col(f));
        }
    }
    Value::Array(out)
}
fn bq_col(f: &Value) -> Value {
    let mut o = json!({});
    o["name"] = f["name"].clone();
    o["mode"] = f["mode"].clone();
    let fs = list_at(f, "fields");
    o["type"] = match str_at(f, "type") {
        "RECORD" if str_at(f, "mode") == "REPEATED" && fs.len() == 2 && str_at(&fs[0], "name") == "key" && str_at(&fs[1], "name") == "value" => {
            let mut t = json!(["key", "value"]);
            t[1] = bq_col(&fs[1]);
            t
        }
        "RECORD" => bq_common(&f["fields"]),
        "STRING" | "TIMESTAMP" => json!("string"),
        _ => f["type"].clone(),
    };
    o
}

/// can the document be stored? Documents have their properties named like the columns.
pub fn avro_takes(t: &Value, d: &Value) -> bool {
    match t {
        Value::Array(u) => {
            let mut r = false;
            for x in u {
                r = r | avro_takes(x, d);
            }
            r
        }
        _ => match str_at(t, "type") {
            "null" => d.is_null(),
            "boolean" => d.is_boolean(),
            "long" => d.is_i64(),
            "double" => d.is_number(),
            // anything but null has a JSON text
            "string" => !d.is_null(),
            "bytes" => d.is_string(),
            "array" => match d {
                Value::Array(xs) => {
                    let t = &t["items"];
                    let mut r = true;
                    for x in xs {
                        r = r & match (str_at(t, "type"), x) {
                            // nested list
                            ("record", Value::Array(_)) => match list_at(t, "fields") {
                                [f] => avro_takes(&f["type"], x),
                                _ => tuple_takes(t, x),
                            },
                            // the list of a nested list may be null (a property that may be null has a default)
                            ("record", Value::Null) => match list_at(t, "fields") {
                                [f] => str_at(f, "name") == "list" && f.get("default").is_none() && avro_takes(&f["type"], x),
                                _ => false,
                            },
                            _ => avro_takes(t, x),
                        };
                    }
                    r
                }
                _ => false,
            },
            "map" => match d {
                Value::Object(m) => {
                    let mut r = true;
                    for (_, x) in m {
                        r = r & avro_takes(&t["values"], x);
                    }
                    r
                }
                _ => false,
            },
            "record" => match d {
                Value::Object(m) => {
                    let mut r = true;
                    for f in list_at(t, "fields") {
                        r = r & match m.get(str_at(f, "name")) {
                            Some(x) => avro_takes(&f["type"], x),
                            None => avro_takes(&f["type"], &Value::Null),
                        };
                    }
                    r
                }
                Value::Array(_) => tuple_takes(t, d),
                _ => false,
            },
            _ => false,
        },
    }
}
fn tuple_takes(t: &Value, d: &Value) -> bool {
    let mut r = true;
    let mut i = 0;
    let fs = list_at(t, "fields");
    for f in fs {
        r = r & avro_takes(&f["type"], d.get(i).unwrap_or(&Value::Null));
        i += 1;
    }
    match d {
        Value::Array(xs) => r & (xs.len() <= fs.len()),
        _ => false,
    }
}
pub fn bq_takes(cols: &Value, d: &Value) -> bool {
    match d {
        Value::Object(m) => {
            let mut r = true;
            if let Value::Array(fs) = cols {
                for f in fs {
                    r = r & bq_col_takes(f, m.get(str_at(f, "name")).unwrap_or(&Value::Null));
                }
            }
            r
        }
        Value::Array(xs) => {
            let mut r = true;
            let mut i = 0;
            if let Value::Array(fs) = cols {
                for f in fs {
                    r = r & bq_col_takes(f, xs.get(i).unwrap_or(&Value::Null));
                    i += 1;
                }
                r = r & (xs.len() <= fs.len());
            }
            r
        }
        _ => false,
    }
}
fn bq_col_takes(f: &Value, d: &Value) -> bool {
    match str_at(f, "mode") {
        "REPEATED" => match d {
            // a repeated column has no null, an absent one is empty
            Value::Null => true,
            Value::Array(xs) => {
                let mut r = true;
                for x in xs {
                    // nor are there null elements; they are left out
                    r = r & match (list_at(f, "fields"), x) {
                        ([l], Value::Array(_)) if str_at(l, "name") == "list" => bq_col_takes(l, x),
                        _ => x.is_null() | bq_value_takes(f, x),
                    };
                }
                r
            }
            // a map, as key and value pairs
            Value::Object(m) => {
                let fs = list_at(f, "fields");
                let mut r = fs.len() >= 1 && str_at(&fs[0], "name") == "key";
                if let Some(v) = fs.get(1) {
                    for (_, x) in m {
                        r = r & bq_col_takes(v, x);
                    }
                }
                r
            }
            _ => false,
        },
        "NULLABLE" => d.is_null() | bq_value_takes(f, d),
        _ => bq_value_takes(f, d),
    }
}
fn bq_value_takes(f: &Value, d: &Value) -> bool {
    match str_at(f, "type") {
        "BOOL" => d.is_boolean(),
        "INT64" => d.is_i64(),
        "FLOAT64" => d.is_number(),
        "STRING" => !d.is_null(),
        "JSON" => true,
        "BYTES" | "TIMESTAMP" => d.is_string(),
        "RECORD" => bq_takes(&f["fields"], d),
        _ => false,
    }
}

/// JSON schema validation of the keywords that the schemas here use
pub fn validates(s: &Value, d: &Value) -> bool {
    let mut r = match s.get("type") {
        Some(Value::String(t)) => is_type(t, d),
        Some(Value::Array(ts)) => {
            let mut any = false;
            for t in ts {
                if let Value::String(t) = t {
                    any = any | is_type(t, d);
                }
            }
            any
        }
        // a null where nothing is specified has no column value but the text "null"
        _ => !s.as_object().map(|m| m.is_empty()).unwrap_or(true) | !d.is_null(),
    };
    if let Some(Value::Array(alts)) = s.get("oneOf") {
        let mut any = false;
        for a in alts {
            any = any | validates(a, d);
        }
        r = r & any;
    }
    if let Value::Object(m) = d {
        if let Some(Value::Array(req)) = s.get("required") {
            for q in req {
                if let Value::String(q) = q {
                    r = r & m.contains_key(q);
                }
            }
        }
        for (k, x) in m {
            let mut known = false;
            if let Some(p) = s.get("properties").and_then(|p| p.get(k)) {
                r = r & validates(p, x);
                known = true;
            }
            if let Some(Value::Object(ps)) = s.get("patternProperties") {
                // the patterns used match everything
                for (_, p) in ps {
                    r = r & validates(p, x);
                    known = true;
                }
            }
            if !known {
                if let Some(p @ Value::Object(_)) = s.get("additionalProperties") {
                    r = r & validates(p, x);
                }
            }
        }
    }
    if let Value::Array(xs) = d {
        match s.get("items") {
            Some(Value::Array(ts)) => {
                let mut i = 0;
                for x in xs {
                    match (ts.get(i), s.get("additionalItems")) {
                        (Some(t), _) => r = r & validates(t, x),
                        (None, Some(Value::Bool(false))) => r = false,
                        (None, Some(t @ Value::Object(_))) => r = r & validates(t, x),
                        _ => {}
                    }
                    i += 1;
                }
            }
            Some(t) => {
                for x in xs {
                    r = r & validates(t, x);
                }
            }
            None => {}
        }
        if let Some(n) = s.get("minItems").and_then(|n| n.as_u64()) {
            r = r & (xs.len() as u64 >= n);
        }
        if let Some(n) = s.get("maxItems").and_then(|n| n.as_u64()) {
            r = r & (xs.len() as u64 <= n);
        }
    }
    r
}
fn is_type(t: &str, d: &Value) -> bool {
    match t {
        "null" => d.is_null(),
        "boolean" => d.is_boolean(),
        "integer" => d.is_i64(),
        "number" => d.is_number(),
        "string" => d.is_string(),
        "array" => d.is_array(),
        _ => d.is_object(),
    }
}

/// the same BigQuery columns, all of them nullable
pub fn bq_forced(v: &Value) -> Value {
    let mut out = vec![];
    if let Value::Array(fs) = v {
        for f in fs {
            let mut o = f.clone();
            if str_at(f, "mode") == "REQUIRED" {
                o["mode"] = json!("NULLABLE");
            }
            if let Some(x) = f.get("fields") {
                o["fields"] = bq_forced(x);
            }
            out.push(o);
        }
    }
    Value::Array(out)
}
/// the same Avro type, everything nullable
pub fn avro_forced(v: &Value) -> Value {
    let inner = match v {
        Value::Array(u) => u.last().unwrap_or(v),
        _ => v,
    };
    let mut o = inner.clone();
    match str_at(inner, "type") {
        "null" => return o,
        "array" => {
            let it = &inner["items"];
            // the record that wraps a list in a list is not a column
            let f = list_at(it, "fields");
            if f.len() == 1 && str_at(&f[0], "name") == "list" {
                let mut w = it.clone();
                w["fields"][0]["type"] = avro_forced(&f[0]["type"]);
                o["items"] = w;
            } else {
                o["items"] = avro_forced(it);
            }
        }
        "map" => o["values"] = avro_forced(&inner["values"]),
        "record" => {
            let mut out = vec![];
            for f in list_at(inner, "fields") {
                let mut g = f.clone();
                g["type"] = avro_forced(&f["type"]);
                g["default"] = Value::Null;
                out.push(g);
            }
            o["fields"] = Value::Array(out);
        }
        _ => {}
    }
    let mut u = json!([{"type": "null"}, 0]);
    u[1] = o;
    u
}
/// the same Avro type below another namespace
pub fn avro_moved(v: &Value, from: &str, to: &str) -> Value {
    match v {
        Value::Array(u) => {
            let mut out = vec![];
            for x in u {
                out.push(avro_moved(x, from, to));
            }
            Value::Array(out)
        }
        _ => {
            let mut o = v.clone();
            match str_at(v, "type") {
                "array" => o["items"] = avro_moved(&v["items"], from, to),
                "map" => o["values"] = avro_moved(&v["values"], from, to),
                "record" => {
                    let ns = str_at(v, "namespace");
                    let full = if ns.is_empty() { str_at(v, "name").to_string() } else { format!("{}.{}", ns, str_at(v, "name")) };
                    if let Some(rest) = full.strip_prefix(from) {
                        let full = format!("{}{}", to, rest);
                        if let Some(i) = full.rfind('.') {
                            o["namespace"] = json!(&full[..i]);
                            o["name"] = json!(&full[i + 1..]);
                        }
                    }
                    let mut out = vec![];
                    for f in list_at(v, "fields") {
                        let mut g = f.clone();
                        g["type"] = avro_moved(&f["type"], from, to);
                        out.push(g);
                    }
                    o["fields"] = Value::Array(out);
                }
                _ => {}
            }
            o
        }
    }
}
pub fn column<'a>(v: &'a Value, name: &str) -> Option<&'a Value> {
    let mut r = None;
    let fs = match v {
        Value::Array(fs) if str_at(v.get(0).unwrap_or(&Value::Null), "type") != "null" => &fs[..],
        Value::Array(u) => list_at(u.last().unwrap_or(v), "fields"),
        _ => list_at(v, "fields"),
    };
    for f in fs {
        if str_at(f, "name") == name {
            r = Some(f);
        }
    }
    r
}
