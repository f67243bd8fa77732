//! Harnesses. Each is executed symbolically by mirsym and natively for replays.
#![allow(clippy::all)]
#![allow(dead_code)]
use serde_json::{json, Value};
macro_rules! harnesses {
    ($($n:ident),* $(,)?) => {
        pub fn table() -> Vec<(&'static str, fn())> {
            vec![$((stringify!($n), $n as fn())),*]
        }
    };
}
mod gen;
mod p_more;
mod p_rel;
mod p_resolve;
mod p_shape;
mod p_union;
mod props;
mod spec;
mod valid;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut t = props::table();
    t.extend(p_more::table());
    t.extend(p_resolve::table());
    t.extend(p_union::table());
    t.extend(p_shape::table());
    t.extend(p_rel::table());
    let f = t.iter().find(|t| t.0 == a[1]).expect("harness").1;
    let text = std::fs::read_to_string(&a[2]).unwrap();
    let asg: Value = serde_json::from_str(&text).unwrap();
    let list = match asg {
        Value::Array(v) => v,
        v => vec![v],
    };
    for asg in list {
        let asg = asg.as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_u64().unwrap_or(0) as u128)).collect();
        run(asg, f);
    }
}
#[cfg(mirsym)]
fn run(_: std::collections::HashMap<String, u128>, _: fn()) {}
#[cfg(not(mirsym))]
fn run(asg: std::collections::HashMap<String, u128>, f: fn()) {
    std::panic::set_hook(Box::new(|_| {}));
    // every run in a process of its own: what one leaves behind in statics is not there for the next
    let ok = symrt::forked(|| {
        let o = symrt::run_native(asg, true, f);
        println!("{}", json!({"failed": o.failed, "reached": o.reached, "vacuous": o.vacuous, "panicked": o.panicked, "shown": o.shown}));
    });
    if !ok {
        println!("{}", json!({"failed": [], "reached": [], "vacuous": false, "panicked": true, "shown": ["the process crashed"]}));
    }
}
