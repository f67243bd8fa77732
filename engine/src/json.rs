//! Minimal JSON writer.
pub fn s(x: &str) -> String {
    let mut o = String::from("\"");
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn obj(kv: &[(&str, String)]) -> String {
    let v: Vec<String> = kv.iter().map(|(k, v)| format!("{}:{}", s(k), v)).collect();
    format!("{{{}}}", v.join(","))
}
pub fn arr(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}
