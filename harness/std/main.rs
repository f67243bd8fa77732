//! Idioms of the standard library that the executor must understand, on small symbolic inputs.
//! Not a check of the code under test: `tool/std_tests.py` runs it while the executor is being developed.
#![allow(clippy::all)]
#![allow(unused)]
use serde_json::{json, Value};
use std::borrow::Cow;
use std::collections::*;
use std::rc::Rc;
use std::sync::{Arc, LazyLock, OnceLock, Mutex};
use std::fmt::Write as _;

fn b(l: &str) -> bool {
    symrt::any_bool(l)
}
/// subset of 3, 1, 2, 1, 5
fn v() -> Vec<i64> {
    let mut v = vec![3];
    if b("v1") { v.push(1); }
    if b("v2") { v.push(2); }
    v.push(1);
    if b("v3") { v.push(5); }
    v
}
fn names() -> Vec<String> {
    let mut v = vec!["b".to_string()];
    if b("n1") { v.push("a-c".to_string()); }
    if b("n2") { v.push("A.d".to_string()); }
    v
}
fn m() -> HashMap<String, i64> {
    let mut m = HashMap::new();
    m.insert("k".to_string(), 1);
    if b("m1") { m.insert("a".to_string(), 2); }
    if b("m2") { m.insert("z".to_string(), 3); }
    m
}
fn st() -> String {
    symrt::pick("s", vec!["".to_string(), "a".to_string(), "ab-c".to_string(), "x.y-z".to_string(), "é1".to_string()])
}
fn o() -> Option<i64> {
    if b("o") { Some(4) } else { None }
}
fn r() -> Result<i64, String> {
    if b("r") { Ok(4) } else { Err("bad".to_string()) }
}
fn ck(c: bool) {
    symrt::check(c, "std");
}
/// plain loops as the oracle
fn count(v: &[i64], f: impl Fn(i64) -> bool) -> usize {
    let mut n = 0;
    let mut i = 0;
    while i < v.len() {
        if f(v[i]) { n += 1; }
        i += 1;
    }
    n
}
macro_rules! tests {
    ($($n:ident => $e:block)*) => {
        $(fn $n() { ck($e); symrt::reach("end"); })*
        fn table() -> Vec<(&'static str, fn())> {
            vec![$((stringify!($n), $n as fn())),*]
        }
    };
}
#[derive(Debug, Clone, PartialEq, Default)]
struct P { a: i64, name: String, o: Option<Box<P>> }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum K { A, B(u8), C }
static RE: LazyLock<regex::Regex> = LazyLock::new(|| regex::Regex::new("^[a-z]+$").unwrap());
static ONCE: OnceLock<regex::Regex> = OnceLock::new();
thread_local!(static TL: std::cell::RefCell<u32> = std::cell::RefCell::new(1));
fn try_all(v: &[i64]) -> Result<Vec<i64>, String> {
    let mut out = Vec::new();
    for x in v { if *x == 5 { return Err("five".into()); } out.push(*x); }
    Ok(out)
}
tests! {
    h_atomic => { use std::sync::atomic::*; static N: AtomicUsize = AtomicUsize::new(7); N.store(1, Ordering::SeqCst); if b("x") { N.fetch_add(2, Ordering::Relaxed); } N.load(Ordering::SeqCst) == if b("x") { 3 } else { 1 } }
    h_static_mut => { static mut N: usize = 7; unsafe { N = 1; if b("x") { N += 2; } N == if b("x") { 3 } else { 1 } } }
    h_mutex => { static M: Mutex<Option<String>> = Mutex::new(None); *M.lock().unwrap() = None; if b("x") { *M.lock().unwrap() = Some(st()); } let g = M.lock().unwrap(); g.clone().unwrap_or_default() == if b("x") { st() } else { String::new() } }
    h_lazy_mutex => { static M: LazyLock<Mutex<HashMap<String, i64>>> = LazyLock::new(|| Mutex::new(HashMap::new())); M.lock().unwrap().clear(); if b("x") { M.lock().unwrap().insert("a".into(), 1); } M.lock().unwrap().insert("b".into(), 2); let m = M.lock().unwrap(); m.len() == 1 + b("x") as usize && m.contains_key("a") == b("x") }
    h_once_local => { let c: OnceLock<i64> = OnceLock::new(); if b("x") { c.get_or_init(|| 3); } *c.get_or_init(|| 4) == if b("x") { 3 } else { 4 } && c.get() == Some(&if b("x") { 3 } else { 4 }) && c.set(9).is_err() && c.into_inner().is_some() }
    h_once_cell => { let c = std::cell::OnceCell::new(); let a = *c.get_or_init(|| v().len()); a == v().len() && *c.get_or_init(|| 0) == a }
    h_lazy_cell => { let n = std::cell::Cell::new(0); let c = std::cell::LazyCell::new(|| { n.set(n.get() + 1); v() }); let k = c.len() + c.len(); k == 2 * v().len() && n.get() == 1 }
    h_cell => { let n = std::cell::Cell::new(1); if b("x") { n.set(2); } n.replace(5) == 1 + b("x") as i32 && n.get() == 5 && n.take() == 5 }
    h_once_regex => { static R: OnceLock<regex::Regex> = OnceLock::new(); R.get_or_init(|| regex::Regex::new("^a").unwrap()).is_match(&st()) == st().starts_with('a') }
    h_tl => { TL.with(|t| *t.borrow_mut() = 1); if b("x") { TL.with(|t| *t.borrow_mut() += 1); } TL.with(|t| *t.borrow()) == 1 + b("x") as u32 }
    h_tl_cell => { thread_local!(static C: std::cell::Cell<u32> = const { std::cell::Cell::new(1) }); C.set(1); if b("x") { C.set(2); } C.with(|c| c.get()) == 1 + b("x") as u32 }
    h_tl_borrow => { thread_local!(static C: std::cell::RefCell<Vec<i64>> = std::cell::RefCell::new(Vec::new())); C.with_borrow_mut(|v| v.clear()); C.with_borrow_mut(|w| w.extend(v())); C.with_borrow(|w| w.len() == v().len()) }
    h_bool_atomic => { use std::sync::atomic::*; static N: AtomicBool = AtomicBool::new(false); N.store(false, Ordering::SeqCst); if b("x") { N.store(true, Ordering::SeqCst); } N.swap(true, Ordering::SeqCst) == b("x") }
    h_rwlock => { static M: std::sync::RwLock<Vec<i64>> = std::sync::RwLock::new(Vec::new()); M.write().unwrap().clear(); M.write().unwrap().extend(v()); M.read().unwrap().len() == v().len() }
    h_static_array => { static A: [&str; 3] = ["a", "ab-c", "q"]; A.contains(&st().as_str()) == (st() == "a" || st() == "ab-c") && A.iter().any(|x| *x == "q") }
    h_static_slice => { static A: &[(&str, i64)] = &[("a", 1), ("ab-c", 2)]; A.iter().find(|(n, _)| *n == st()).map(|x| x.1) == match st().as_str() { "a" => Some(1), "ab-c" => Some(2), _ => None } }
    zip_rev => { let v = v(); let w: Vec<(i64, i64)> = v.iter().copied().zip(v.iter().rev().copied()).collect(); w.len() == v.len() && w[0].0 == v[0] && w[0].1 == v[v.len() - 1] }
    zip_mut => { let mut v = v(); let l = v.len(); for (x, y) in v.iter_mut().zip(0..) { *x = y; } v == (0..l as i64).collect::<Vec<_>>() }
    zip_range_rev => { let v = v(); let w: Vec<_> = v.iter().zip(0..v.len()).map(|(x, i)| *x + i as i64).collect(); w.len() == v.len() && w[0] == 3 }
    zip_fold => { let v = v(); v.iter().zip(v.iter()).fold(0, |a, (x, y)| a + x - y) == 0 }
    unzip => { let v = v(); let (a, c): (Vec<i64>, Vec<bool>) = v.iter().map(|x| (*x, *x > 1)).unzip(); a == v && c.len() == v.len() }
    enumerate_rev => { let v = v(); let w: Vec<usize> = v.iter().enumerate().rev().map(|(i, _)| i).collect(); w.len() == v.len() && w[w.len() - 1] == 0 }
    partition => { let v = v(); let (x, y): (Vec<i64>, Vec<i64>) = v.iter().partition(|x| **x > 1); x.len() + y.len() == v.len() && x.iter().all(|x| *x > 1) }
    try_fold => { let v = v(); v.iter().try_fold(0i64, |a, x| if *x == 5 { None } else { Some(a + x) }).is_none() == v.contains(&5) }
    try_for_each => { let v = v(); v.iter().try_for_each(|x| if *x == 5 { Err(()) } else { Ok(()) }).is_err() == v.contains(&5) }
    collect_result => { let v = v(); let r: Result<Vec<i64>, ()> = v.iter().map(|x| if *x == 5 { Err(()) } else { Ok(*x) }).collect(); r.is_err() == v.contains(&5) }
    collect_option => { let v = v(); let r: Option<Vec<i64>> = v.iter().map(|x| if *x == 5 { None } else { Some(*x) }).collect(); r.is_none() == v.contains(&5) }
    collect_result_map => { let m = m(); let r: Result<HashMap<String, i64>, String> = m.iter().map(|(k, v)| if *v == 3 { Err(k.clone()) } else { Ok((k.clone(), *v)) }).collect(); r.is_err() == m.contains_key("z") }
    collect_result_btree => { let m = m(); let r: Result<BTreeMap<String, i64>, String> = m.into_iter().map(|(k, v)| Ok((k, v))).collect(); r.unwrap().values().next().is_some() }
    filter_map => { let v = v(); v.iter().filter_map(|x| (*x > 1).then(|| x * 2)).count() == count(&v, |x| x > 1) }
    flat_map => { let v = v(); v.iter().flat_map(|x| vec![*x; 2]).count() == v.len() * 2 }
    flatten_opt => { let v = v(); v.iter().map(|x| if *x > 1 { Some(*x) } else { None }).flatten().count() == count(&v, |x| x > 1) }
    flatten_res => { let v = v(); v.iter().map(|x| if *x > 1 { Ok(*x) } else { Err(()) }).flatten().count() == count(&v, |x| x > 1) }
    flatten_arr => { [Some(1), o(), None].into_iter().flatten().count() == if b("o") { 2 } else { 1 } }
    chain_once => { let v = v(); let w: Vec<i64> = std::iter::once(9).chain(v.iter().copied()).chain(o()).collect(); w[0] == 9 && w.len() == v.len() + 1 + o().iter().count() }
    take_while => { let v = v(); v.iter().take_while(|x| **x > 1).count() >= 1 }
    skip_while => { let v = v(); v.iter().skip_while(|x| **x == 3).count() == v.len() - 1 }
    map_while => { let v = v(); v.iter().map_while(|x| if *x > 1 { Some(x) } else { None }).count() >= 1 }
    skip_take => { let v = v(); v.iter().skip(1).take(1).count() == 1 }
    iter_mut_skip => { let mut v = v(); let l = v.len(); for x in v.iter_mut().skip(1) { *x = 7; } v.iter().filter(|x| **x == 7).count() == l - 1 }
    step_by => { let v = v(); v.iter().step_by(2).count() == (v.len() + 1) / 2 }
    peekable => { let v = v(); let mut p = v.iter().peekable(); let mut n = 0; while let Some(x) = p.next() { if p.peek().is_some() { n += 1; } } n == v.len() - 1 }
    windows => { let v = v(); v.windows(2).filter(|w| w[0] > w[1]).count() >= 1 }
    chunks => { let v = v(); v.chunks(2).map(|c| c.len()).sum::<usize>() == v.len() }
    scan => { let v = v(); v.iter().scan(0, |a, x| { *a += x; Some(*a) }).last() == Some(v.iter().sum()) }
    min_max => { let v = v(); *v.iter().max().unwrap() >= 3 && *v.iter().min().unwrap() == 1 }
    max_by_key => { let v = v(); *v.iter().max_by_key(|x| **x).unwrap() == *v.iter().max().unwrap() && v.iter().min_by_key(|x| -**x).unwrap() == v.iter().max().unwrap() }
    max_by => { let v = v(); v.iter().max_by(|a, b| a.cmp(b)) == v.iter().max() }
    position => { let v = v(); v.iter().position(|x| *x == 1).unwrap() >= 1 && v.iter().rposition(|x| *x == 1).unwrap() >= 1 }
    find => { let v = v(); v.iter().find(|x| **x == 5).is_some() == v.contains(&5) }
    find_map => { let v = v(); v.iter().find_map(|x| if *x == 5 { Some(1) } else { None }).is_some() == v.contains(&5) }
    any_all => { let v = v(); v.iter().any(|x| *x == 5) != v.iter().all(|x| *x != 5) }
    sum_product => { let v = v(); v.iter().sum::<i64>() >= 4 && v.iter().product::<i64>() >= 3 }
    fold_str => { names().iter().fold(String::new(), |mut a, n| { if !a.is_empty() { a.push('.'); } a.push_str(n); a }) == names().join(".") }
    reduce => { let v = v(); v.iter().copied().reduce(|a, x| a.max(x)) == v.iter().copied().max() }
    last_nth => { let v = v(); v.iter().last() == v.last() && v.iter().nth(0) == v.first() }
    cmp_iter => { let v = v(); v.iter().eq(v.clone().iter()) && !v.iter().lt(v.iter()) }
    cloned_copied => { let v = v(); v.iter().cloned().collect::<Vec<_>>() == v.iter().copied().collect::<Vec<_>>() }
    rev_collect => { let mut v = v(); let w: Vec<i64> = v.iter().rev().cloned().collect(); v.reverse(); v == w }
    by_ref => { let v = v(); let mut it = v.iter(); let a = it.by_ref().take(1).count(); a == 1 && it.count() == v.len() - 1 }
    cycle_take => { [1, 2].iter().cycle().take(5).count() == 5 }
    repeat_take => { std::iter::repeat(1).take(3).collect::<Vec<_>>() == vec![1; 3] }
    repeat_with => { std::iter::repeat_with(|| 2).take(2).sum::<i32>() == 4 }
    repeat_n => { std::iter::repeat_n("x", 2).collect::<String>() == "xx" }
    successors => { std::iter::successors(Some(1), |x| if *x < 8 { Some(x * 2) } else { None }).count() == 4 }
    from_fn => { let mut n = 0; std::iter::from_fn(|| { n += 1; if n < 4 { Some(n) } else { None } }).sum::<i32>() == 6 }
    empty_iter => { std::iter::empty::<i64>().chain(v()).count() == v().len() }
    inspect => { let mut n = 0; let v = v(); let c = v.iter().inspect(|_| n += 1).count(); n == c }
    for_each => { let mut n = 0; v().into_iter().for_each(|x| n += x); n == v().iter().sum::<i64>() }
    rfold => { v().iter().rfold(0, |a, x| a + x) == v().iter().sum::<i64>() }
    is_sorted => { let mut v = v(); v.sort(); v.is_sorted() && v.windows(2).all(|w| w[0] <= w[1]) }
    sort_unstable => { let mut v = v(); v.sort_unstable(); v[0] == 1 }
    sort_by => { let mut v = v(); v.sort_by(|a, b| b.cmp(a)); v[v.len() - 1] == 1 }
    sort_by_key_rev => { let mut v = v(); v.sort_by_key(|x| std::cmp::Reverse(*x)); v[v.len() - 1] == 1 }
    sort_unstable_by => { let mut v = v(); v.sort_unstable_by(|a, b| a.cmp(b)); v[0] == 1 }
    sort_unstable_by_key => { let mut v = names(); v.sort_unstable_by_key(|n| n.len()); v[0] == "b" }
    sort_cached => { let mut v = names(); v.sort_by_cached_key(|n| n.clone()); v[v.len() - 1] == "b" }
    sort_strs => { let v0 = names(); let mut v: Vec<&str> = v0.iter().map(|s| s.as_str()).collect(); v.sort(); v[v.len() - 1] == "b" }
    sort_refs => { let m = m(); let mut v: Vec<&String> = m.keys().collect(); v.sort(); v.windows(2).all(|w| w[0] < w[1]) }
    sort_tuples => { let m = m(); let mut v: Vec<(&String, &i64)> = m.iter().collect(); v.sort(); v.windows(2).all(|w| w[0] < w[1]) }
    sort_tuples_by => { let m = m(); let mut v: Vec<(String, i64)> = m.into_iter().collect(); v.sort_by(|a, b| a.0.cmp(&b.0)); v.windows(2).all(|w| w[0].0 < w[1].0) }
    sort_partial => { let m = m(); let mut v: Vec<_> = m.iter().collect(); v.sort_by(|(a, _), (b, _)| a.partial_cmp(b).unwrap()); v.len() == m.len() }
    sort_then => { let mut v = v(); v.sort_by(|a, b| (a % 2).cmp(&(b % 2)).then(a.cmp(b)).then_with(|| std::cmp::Ordering::Equal)); v.len() == self::v().len() }
    dedup => { let mut v = v(); v.sort(); v.dedup(); v.len() == v.iter().collect::<HashSet<_>>().len() }
    dedup_by_key => { let mut v = v(); v.sort(); v.dedup_by_key(|x| *x); v[0] == 1 }
    retain => { let mut v = v(); v.retain(|x| *x != 1); !v.contains(&1) }
    drain => { let mut v = v(); let l = v.len(); let d: Vec<i64> = v.drain(..1).collect(); d == [3] && v.len() == l - 1 }
    drain_all => { let mut v = v(); let l = v.len(); v.drain(..).count() == l && v.is_empty() }
    extract => { let mut v = v(); let mut w = vec![]; w.append(&mut v); v.is_empty() && w[0] == 3 }
    split_off => { let mut v = v(); let w = v.split_off(1); v == [3] && w.len() + 1 == self::v().len() }
    splice => { let mut v = vec![1, 2, 3]; v.splice(0..1, [7, 8]); v == [7, 8, 2, 3] }
    insert_remove => { let mut v = v(); v.insert(0, 9); v.remove(0) == 9 && v.swap_remove(0) == 3 }
    truncate_resize => { let mut v = v(); v.truncate(1); v.resize(3, 0); v == [3, 0, 0] }
    resize_sym => { let mut v = v(); let n = v.len() + if b("x") { 1 } else { 0 }; v.resize(n, 8); v.len() == n && v[0] == 3 }
    resize_with => { let mut v: Vec<String> = names(); v.resize_with(4, Default::default); v.len() == 4 && v[3].is_empty() }
    extend_from => { let mut v = v(); v.extend_from_slice(&[1, 2]); v.extend([4]); v.extend(vec![5].iter()); v.last() == Some(&5) }
    concat_join => { vec![vec![1], v()].concat().len() == v().len() + 1 && ["a", "b"].concat() == "ab" && [["a", "b"], ["c", "d"]].concat().join("/") == "a/b/c/d" }
    first_last => { let v = v(); v.first() == Some(&3) && v.split_first().unwrap().1.len() == v.len() - 1 && v.split_last().is_some() }
    slices => { let v = v(); match v.as_slice() { [a, .., z] => *a == 3 && v.last() == Some(z), _ => false } }
    slice_pat1 => { match names().as_slice() { [one] => one == "b", [one, rest @ ..] => one == "b" && rest.len() <= 2, [] => false } }
    slice_get => { let v = v(); v.get(0) == Some(&3) && v.get(9).is_none() && v.get(0..1) == Some(&[3][..]) }
    slice_mut => { let mut v = v(); v[0] = 1; if let Some(x) = v.get_mut(0) { *x += 1; } if let Some(x) = v.first_mut() { *x += 1; } if let Some(x) = v.last_mut() { *x = 7; } v[0] == 3 && v.ends_with(&[7]) && v.starts_with(&[3]) }
    contains_bin => { let mut v = v(); v.sort(); v.binary_search(&3).is_ok() }
    swap_take => { let mut v = v(); let w = std::mem::take(&mut v); let l = w.len(); let mut x = vec![0]; std::mem::swap(&mut v, &mut x); v == [0] && x.is_empty() && l >= 2 }
    mem_replace => { let mut p = P::default(); let q = std::mem::replace(&mut p, P { a: 2, ..P::default() }); q.a == 0 && p.a == 2 }
    boxed => { let x: Box<i64> = 5.into(); let y = Box::new(v()); *x == 5 && y.len() >= 2 && y.iter().count() == y.len() && (*y).clone() == *y }
    box_slice => { let x: Box<[i64]> = v().into_boxed_slice(); x[0] == 3 && x.into_vec().len() >= 2 }
    vec_from => { Vec::from([1, 2]) == vec![1, 2] && Vec::from("ab") == b"ab" && <[i32; 2]>::try_from(vec![1, 2]).is_ok() }
    array_map => { [1, 2, 3].map(|x| x * 2) == [2, 4, 6] && [0; 3].len() == 3 && std::array::from_fn::<usize, 3, _>(|i| i) == [0, 1, 2] }
    rc_arc => { let a = Rc::new(v()); let b = Rc::clone(&a); let c = Arc::new(1); a.len() == b.len() && *c == 1 && Rc::strong_count(&a) == 2 }
    hm_entry => { let mut m = m(); *m.entry("k".into()).or_insert(0) += 5; m.entry("q".into()).or_insert_with(|| 7); *m.entry("w".into()).or_default() += 1; m["k"] == 6 && m["q"] == 7 && m["w"] == 1 }
    hm_entry_modify => { let mut m = m(); m.entry("k".into()).and_modify(|x| *x += 1).or_insert(9); m.entry("y".into()).and_modify(|x| *x += 1).or_insert(9); m["k"] == 2 && m["y"] == 9 }
    hm_entry_match => { use std::collections::hash_map::Entry; let mut m = m(); match m.entry("a".to_string()) { Entry::Occupied(mut e) => { *e.get_mut() += 1; } Entry::Vacant(e) => { e.insert(3); } } m["a"] == 3 }
    hm_entry_vec => { let mut h: HashMap<String, Vec<i64>> = HashMap::new(); for (k, v) in m().into_iter().chain(m()) { h.entry(k).or_default().push(v); } h.values().all(|v| v.len() == 2) }
    hm_entry_or_vec => { let mut h: HashMap<&str, Vec<i64>> = HashMap::new(); for x in v() { h.entry(if x > 1 { "big" } else { "small" }).or_insert_with(Vec::new).push(x); } h["small"].len() >= 1 && h.len() == 2 }
    hm_remove => { let mut m = m(); m.remove("k") == Some(1) && m.remove("k").is_none() && m.remove_entry("q").is_none() }
    hm_get => { let m = m(); m.get("k") == Some(&1) && m.get("a").copied().unwrap_or(2) == 2 && m.get("z").is_some() == m.contains_key("z") && m.get_key_value("k").is_some() }
    hm_get_mut => { let mut m = m(); if let Some(x) = m.get_mut("a") { *x = 9; } m.get("a").map_or(true, |x| *x == 9) }
    hm_values => { let m = m(); m.values().sum::<i64>() >= 1 && m.keys().count() == m.len() && m.clone().into_values().max() >= Some(1) && m.into_keys().any(|k| k == "k") }
    hm_values_mut => { let mut m = m(); for x in m.values_mut() { *x = 1; } m.iter_mut().for_each(|(_, v)| *v += 1); m.values().all(|x| *x == 2) }
    hm_retain => { let mut m = m(); m.retain(|k, v| k != "k" && *v > 0); !m.contains_key("k") }
    hm_drain => { let mut m = m(); let l = m.len(); let w: Vec<(String, i64)> = m.drain().collect(); w.len() == l && m.is_empty() }
    hm_extend => { let mut m = m(); m.extend(vec![("x".to_string(), 1)]); m.extend([("y".to_string(), 1)].into_iter()); m.len() >= 3 }
    hm_from => { let m = HashMap::from([("a", 1), ("b", 2)]); m.len() == 2 && m["b"] == 2 }
    hm_eq => { m() == m() && m() != HashMap::new() }
    hm_filter_collect => { let m: HashMap<String, i64> = m().into_iter().filter(|(k, _)| k != "k").collect(); !m.contains_key("k") }
    hm_map_collect => { let m: BTreeMap<String, i64> = m().iter().map(|(k, v)| (k.to_uppercase(), v + 1)).collect(); m["K"] == 2 }
    hm_sum_fold => { let m = m(); m.iter().fold(0, |a, (_, v)| a + v) == m.values().sum::<i64>() }
    hm_cap => { let mut m: HashMap<String, i64> = HashMap::with_capacity(4); m.insert("a".into(), 1); m.reserve(3); m.shrink_to_fit(); m.len() == 1 }
    hm_clear => { let mut m = m(); m.clear(); m.is_empty() }
    hm_into_sorted => { let mut v: Vec<(String, i64)> = Vec::from_iter(m()); v.sort_by(|x, y| x.0.cmp(&y.0)); v.len() == m().len() }
    bt_from_hm => { let m = m(); let t: BTreeMap<_, _> = m.iter().collect(); t.keys().zip(t.keys().skip(1)).all(|(a, b)| a < b) && t.len() == m.len() }
    bt_into_iter => { let t: BTreeMap<String, i64> = m().into_iter().collect(); let ks: Vec<String> = t.into_iter().map(|(k, _)| k).collect(); ks.windows(2).all(|w| w[0] < w[1]) }
    bt_entry => { let mut t: BTreeMap<String, i64> = BTreeMap::new(); for (k, v) in m() { *t.entry(k).or_insert(0) += v; } t.get("k") == Some(&1) && t.first_key_value().is_some() && t.last_key_value().is_some() }
    bt_entry_vec => { let mut t: BTreeMap<String, Vec<i64>> = BTreeMap::new(); for (k, v) in m() { t.entry(k).or_default().push(v); } t.values().map(Vec::len).sum::<usize>() == m().len() }
    bt_pop => { let mut t: BTreeMap<String, i64> = m().into_iter().collect(); let n = t.len(); t.pop_first().is_some() && t.len() == n - 1 }
    bt_range => { let t: BTreeMap<i64, i64> = v().into_iter().map(|x| (x, x)).collect(); t.range(2..).count() >= 1 }
    bt_remove => { let mut t: BTreeMap<String, i64> = m().into_iter().collect(); t.remove("k") == Some(1) && !t.contains_key("k") }
    bt_values => { let mut t: BTreeMap<String, i64> = m().into_iter().collect(); for x in t.values_mut() { *x += 1; } t.values().all(|x| *x > 1) && t.into_values().count() == m().len() }
    bt_retain => { let mut t: BTreeMap<String, i64> = m().into_iter().collect(); t.retain(|_, v| *v > 1); !t.contains_key("k") }
    bs => { let t: BTreeSet<i64> = v().into_iter().collect(); t.contains(&3) && t.iter().next() == Some(&1) && t.into_iter().last() >= Some(3) }
    hs_ops => { let a: HashSet<i64> = v().into_iter().collect(); let c = HashSet::from([1, 9]); a.intersection(&c).count() == 1 && a.union(&c).count() == a.len() + 1 && a.difference(&c).count() == a.len() - 1 && !a.is_disjoint(&c) && !c.is_subset(&a) }
    hs_bitand => { let a: HashSet<i64> = v().into_iter().collect(); let c = HashSet::from([1, 9]); (&a & &c).len() == 1 && (&a | &c).contains(&9) }
    hs_retain => { let mut a: HashSet<i64> = v().into_iter().collect(); let c: HashSet<i64> = HashSet::from([1, 9]); a.retain(|x| c.contains(x)); a.len() == 1 }
    hs_insert => { let mut a = HashSet::new(); let mut n = 0; for x in v() { if a.insert(x) { n += 1; } } n == a.len() && a.remove(&3) && !a.remove(&3) && a.take(&1) == Some(1) }
    hs_cloned => { let a: HashSet<String> = names().into_iter().collect(); let c: HashSet<String> = a.iter().filter(|s| s.len() == 1).cloned().collect(); c.len() == 1 && c.is_subset(&a) }
    hs_map_opt => { let a: Option<HashSet<String>> = if b("x") { Some(names().into_iter().collect()) } else { None }; let c = a.as_ref().map(|s| s.iter().map(|x| x.replace('-', "_")).collect::<HashSet<_>>()); c.is_some() == a.is_some() }
    hs_default => { let a: Option<HashSet<String>> = if b("x") { Some(names().into_iter().collect()) } else { None }; let e = HashSet::new(); let c = a.as_ref().unwrap_or(&e); c.contains("b") == b("x") && a.clone().unwrap_or_default().len() == c.len() && a.iter().flatten().count() == c.len() }
    hs_option_contains => { let a: Option<HashSet<String>> = if b("x") { Some(names().into_iter().collect()) } else { None }; a.as_ref().map_or(false, |s| s.contains("b")) == b("x") && a.as_ref().is_some_and(|s| s.contains("b")) == b("x") && !a.is_none_or(|s| s.contains("b")) == false }
    vd => { let mut d: VecDeque<i64> = v().into_iter().collect(); d.push_front(0); d.push_back(9); d.pop_front() == Some(0) && d.pop_back() == Some(9) && d.front() == Some(&3) && d.len() == v().len() }
    vd_loop => { let mut d = VecDeque::from(v()); let mut n = 0; while let Some(x) = d.pop_front() { n += x; } n == v().iter().sum::<i64>() }
    heap => { let mut h: BinaryHeap<i64> = v().into_iter().collect(); h.pop() == v().into_iter().max() }
    stack => { let mut s = v(); let mut n = 0; while let Some(x) = s.pop() { n += x; } n == v().iter().sum::<i64>() }
    opt_combo => { o().map(|x| x + 1).unwrap_or(0) == if b("o") { 5 } else { 0 } && o().and_then(|x| if x > 3 { Some(x) } else { None }).is_some() == b("o") && o().filter(|x| *x > 9).is_none() }
    opt_or => { o().or(Some(1)).unwrap() > 0 && o().or_else(|| Some(2)).is_some() && o().xor(Some(1)).is_some() != b("o") && o().map_or(1, |x| x) > 0 && o().map_or_else(|| 1, |x| x) > 0 }
    opt_zip => { o().zip(Some(1)).is_some() == b("o") && o().ok_or("e").is_ok() == b("o") && o().ok_or_else(|| "e".to_string()).is_err() != b("o") }
    opt_take => { let mut x = o(); let y = x.take(); let mut z = Some(1); z.replace(2); let w = z.insert(3); *w += 1; x.is_none() && y.is_some() == b("o") && z == Some(4) }
    opt_get_or => { let mut x = o(); *x.get_or_insert(1) += 1; let mut y: Option<Vec<i64>> = None; y.get_or_insert_with(Vec::new).push(1); x > Some(1) && y.unwrap() == [1] }
    opt_as_deref => { let x = if b("o") { Some("q".to_string()) } else { None }; x.as_deref().unwrap_or("d").len() == 1 && x.as_ref().map(String::as_str) == x.as_deref() && x.clone().unwrap_or_default().len() <= 1 && x.iter().count() <= 1 }
    opt_transpose => { let x: Result<Option<i64>, String> = o().map(|x| if x > 9 { Err("e".to_string()) } else { Ok(x) }).transpose(); x.is_ok() }
    opt_copied => { let v = v(); v.first().copied() == v.first().cloned() && v.get(7).copied().unwrap_or_default() == 0 }
    opt_if_let_else => { let Some(x) = o() else { return ck(!b("o")) }; x == 4 }
    opt_mut => { let mut x = o(); if let Some(y) = x.as_mut() { *y += 1; } x.map_or(true, |y| y == 5) }
    opt_flatten => { Some(o()).flatten() == o() && o().is_some_and(|x| x == 4) == b("o") }
    opt_cmp => { (o() < Some(5)) && o() == o() && o().max(Some(1)).is_some() }
    opt_then => { b("x").then(|| 1).is_some() == b("x") && b("x").then_some(2).unwrap_or(3) >= 2 }
    opt_collect => { let v: Vec<i64> = o().into_iter().chain(Some(1)).collect(); v.len() == 1 + b("o") as usize }
    opt_extend => { let mut v = v(); let l = v.len(); v.extend(o()); v.len() == l + b("o") as usize }
    res_combo => { r().map(|x| x + 1).unwrap_or(0) == if b("r") { 5 } else { 0 } && r().map_err(|e| e.len()).is_err() != b("r") && r().ok().is_some() == b("r") && r().err().is_none() == b("r") }
    res_and_then => { r().and_then(|x| if x > 9 { Ok(x) } else { Err("small".to_string()) }).is_err() && r().or_else(|e| if e == "bad" { Ok::<i64, String>(1) } else { Err(e) }).is_ok() }
    res_unwrap_or => { r().unwrap_or_else(|e| e.len() as i64) >= 3 && r().unwrap_or_default() >= 0 && r().is_ok_and(|x| x == 4) == b("r") && r().as_ref().map(|x| *x).unwrap_or(0) >= 0 && r().iter().count() <= 1 }
    res_match => { match r() { Ok(x) if x > 9 => false, Ok(_) => b("r"), Err(ref e) if e == "bad" => !b("r"), Err(_) => false } }
    res_question => { fn f() -> Result<i64, Box<dyn std::error::Error>> { let x = r()?; Ok(x + 1) } f().is_ok() == b("r") }
    res_question2 => { try_all(&v()).is_err() == v().contains(&5) }
    res_expect => { symrt::catch(|| r().expect("no")).is_ok() == b("r") }
    res_iter_sum => { let x: Result<i64, ()> = v().into_iter().map(Ok).sum(); x.is_ok() }
    res_partition => { let (a, c): (Vec<_>, Vec<_>) = v().into_iter().map(|x| if x > 1 { Ok(x) } else { Err(x) }).partition(|x: &Result<i64, i64>| x.is_ok()); a.into_iter().map(Result::unwrap).all(|x| x > 1) && c.len() >= 1 }
    str_basic => { let s = st(); s.len() >= s.chars().count() && s.is_empty() == (s.len() == 0) && s.to_string() == s && s.as_str().to_owned() == s && String::from(s.as_str()) == s && format!("{}", s) == s }
    str_replace => { let s = st(); !s.replace('-', "_").contains('-') && !s.replace(['.', '-'], "_").contains('.') && !s.replace(&['.', '-'][..], "_").contains('-') && !s.replace(|c: char| c == '.', "").contains('.') && s.replace("a", "b").find('a').is_none() && s.replacen("a", "b", 1).len() == s.len() }
    str_map_chars => { let s = st(); let t: String = s.chars().map(|c| if c == '-' || c == '.' { '_' } else { c }).collect(); t == s.replace(['.', '-'], "_") }
    str_filter_chars => { let s = st(); let t: String = s.chars().filter(|c| c.is_alphanumeric()).collect(); !t.contains('-') }
    str_flat_chars => { let s = st(); let t: String = s.chars().flat_map(|c| c.to_uppercase()).collect(); t == s.to_uppercase() }
    str_case => { let s = st(); s.to_lowercase() == s && s.to_ascii_lowercase() == s && s.to_ascii_uppercase().eq_ignore_ascii_case(&s) && s.to_uppercase().len() == s.len() }
    str_bytes => { let s = st(); s.bytes().count() == s.len() && s.as_bytes().iter().all(|b| *b != 0) && s.bytes().enumerate().all(|(i, c)| s.as_bytes()[i] == c) }
    str_bytes_first => { let s = st(); s.as_bytes().first().map_or(true, |b| b.is_ascii_alphabetic() || *b > 127) && s.bytes().next().is_none() == s.is_empty() }
    str_prefix => { let s = st(); s.strip_prefix('a').map_or(true, |r| r.len() + 1 == s.len()) && s.strip_suffix("c").map_or(true, |t| format!("{t}c") == s) && s.starts_with("ab") == (s == "ab-c") && s.ends_with('z') == (s == "x.y-z") }
    str_starts_closure => { let s = st(); s.starts_with(|c: char| c.is_alphabetic()) != s.is_empty() && !s.starts_with(char::is_numeric) && !s.starts_with(['.', '-']) && s.ends_with(char::is_numeric) == (s == "é1") }
    str_split => { let s = st(); s.split('-').count() == s.matches('-').count() + 1 && s.split(['.', '-']).collect::<Vec<_>>().join("") == s.replace(['.', '-'], "") }
    str_split_once => { let s = st(); s.split_once('-').is_some() == s.contains('-') && s.rsplit_once('.').map(|x| x.0.to_string()) == s.find('.').map(|i| s[..i].to_string()) }
    str_split_more => { let s = st(); s.splitn(2, '-').count() <= 2 && s.rsplit('-').next().is_some() && s.split_terminator('c').count() <= 1 && s.split_whitespace().count() <= 1 && s.lines().count() <= 1 && s.split("-").last().is_some() && s.split_inclusive('-').count() <= 2 }
    str_index => { let s = st(); s.find('-').map_or(true, |i| &s[i..i + 1] == "-" && s[..i].len() == i) && s.rfind('z').is_some() == s.ends_with('z') && s.find("b-").is_some() == (s == "ab-c") && s.find(|c: char| c == '.').is_some() == s.contains('.') }
    str_get => { let s = st(); s.get(0..1).is_some() == (s.len() > 0 && s.is_char_boundary(1)) && s.get(..0) == Some("") && s.chars().nth(0) == s.chars().next() && s.chars().last() == s.chars().rev().next() }
    str_char_indices => { let s = st(); s.char_indices().all(|(i, c)| s[i..].starts_with(c)) && s.char_indices().nth(1).map_or(true, |(i, _)| i >= 1) && s.char_indices().map(|(i, _)| i).last().map_or(true, |i| i < s.len()) }
    str_truncate => { let mut s = st(); if let Some((i, _)) = s.char_indices().nth(1) { s.truncate(i); } s.chars().count() <= 1 }
    str_take => { let s = st(); let t: String = s.chars().take(2).collect(); s.starts_with(&t) && s.chars().skip(1).count() <= s.len() && s.chars().rev().collect::<String>().chars().rev().collect::<String>() == s }
    str_push => { let mut s = st(); let l = s.len(); s.push('x'); s.push_str("yz"); s += "w"; s.insert(0, '_'); s.insert_str(0, "__"); s.len() == l + 7 && s.pop() == Some('w') && s.remove(0) == '_' }
    str_extend => { let mut s = String::with_capacity(3); s.extend(['a', 'b']); s.extend(vec!["c", "d"]); s.extend("e".chars()); s.extend(vec!["f".to_string()]); s == "abcdef" }
    str_trim => { let s = format!("_{}_", st()); s.trim_matches('_') == st() && st().is_empty() || s.trim_start_matches('_').len() == st().len() + 1 && s.trim_end_matches("_").len() == st().len() + 1 && format!(" {} ", st()).trim() == st() && " a".trim_start() == "a" }
    str_repeat => { "ab".repeat(2) == "abab" && "x".repeat(1030).chars().take(1024).count() == 1024 }
    str_parse => { "12".parse::<i32>() == Ok(12) && "x".parse::<i32>().is_err() && 12.to_string() == "12" && 'c'.to_string() == "c" && true.to_string() == "true" }
    str_cmp => { let s = st(); s <= s.clone() && s.cmp(&s) == std::cmp::Ordering::Equal && "a" < "b" && ("a".to_string()) < "b".to_string() && s.as_str() == &s[..] && *s == *s.as_str() && s == *s }
    str_match => { match st().as_str() { "" => st().is_empty(), "a" | "ab-c" => st().starts_with('a'), x if x.len() > 3 => x == "x.y-z", _ => st() == "é1" } }
    str_concat => { let s = st(); s.clone() + "x" == format!("{}x", s) && [s.as_str(), "x"].concat() == format!("{s}x") && vec![s.clone(), "x".into()].join("") == format!("{0}{1}", s, "x") && [s.clone()].join(",") == s }
    str_write => { let mut s = String::new(); write!(s, "{}-{}", st(), 1).unwrap(); writeln!(s, "x").unwrap(); write!(&mut s, "{:?}", 3).unwrap(); s == format!("{}-1x\n3", st()) }
    str_fmt => { format!("{:02}", 7) == "07" && format!("{:>3}", "a") == "  a" && format!("{:?}", "a") == "\"a\"" && format!("f{}_", 3) == "f3_" && format!("{a}{b}", a = 1, b = "x") == "1x" && format!("{:x}", 255) == "ff" }
    str_cow => { let s = st(); let c: Cow<str> = if s.is_empty() { Cow::Borrowed("root") } else { Cow::Owned(s.clone()) }; c.len() >= 1 && c.to_string() == c.clone().into_owned() && Cow::from(s.as_str()) == s && (&*c).len() == c.as_ref().len() }
    str_into => { let s: String = "a".into(); let t: Box<str> = s.clone().into_boxed_str(); let u: Rc<str> = Rc::from("a"); let w: Arc<str> = "a".into(); &*t == "a" && &*u == "a" && &*w == s && t.into_string() == s }
    str_utf8 => { String::from_utf8(st().into_bytes()).unwrap() == st() && std::str::from_utf8(st().as_bytes()).unwrap() == st() && String::from_utf8_lossy(b"ab") == "ab" }
    str_from_iter => { String::from_iter(['a', 'b']) == "ab" && vec!["a", "b"].into_iter().collect::<String>() == "ab" && vec!["a".to_string()].into_iter().collect::<String>() == "a" && "ab".chars().collect::<Vec<char>>().iter().collect::<String>() == "ab" && ["a", "b"].iter().map(|s| s.to_string()).collect::<Vec<_>>().join(",") == "a,b" }
    str_all => { let s = st(); s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') == matches!(s.as_str(), "" | "a") && s.chars().any(|c| !c.is_ascii()) == (s == "é1") && s.is_ascii() == (s != "é1") }
    str_first_digit => { let s = st(); matches!(s.chars().next(), Some(c) if c.is_ascii_digit()) == false && s.chars().next().is_some_and(|c| c.is_lowercase()) != s.is_empty() && s.chars().next().map(char::is_numeric) != Some(true) && !s.as_bytes().first().is_some_and(u8::is_ascii_digit) }
    str_peek => { let s = st(); let mut it = s.chars().peekable(); let mut n = 0; while let Some(c) = it.next() { if c == 'a' && it.peek() == Some(&'b') { n += 1; } } n == s.matches("ab").count() }
    str_windows => { let s = st(); let c: Vec<char> = s.chars().collect(); c.windows(2).filter(|w| w[0] == 'a' && w[1] == 'b').count() == s.matches("ab").count() }
    str_as_ref => { fn f<S: AsRef<str>>(s: S) -> usize { s.as_ref().len() } fn g(s: impl Into<String>) -> usize { s.into().len() } fn h(s: &(impl ToString + ?Sized)) -> usize { s.to_string().len() } f(st()) == g(st()) && f("a") == 1 && h("a") == g("a") }
    str_is_matches => { let s = st(); let valid = |c: char| matches!(c, 'a'..='z' | 'A'..='Z' | '0'..='9' | '_'); s.chars().all(valid) == (s == "" || s == "a") }
    char_ops => { 'a'.is_ascii_lowercase() && 'A'.to_ascii_lowercase() == 'a' && ('a' as u8 + 1) as char == 'b' && char::from(98u8) == 'b' && '7'.to_digit(10) == Some(7) && char::from_digit(7, 10) == Some('7') && 'é'.len_utf8() == 2 && 'a'.is_alphanumeric() && '_'.is_ascii_punctuation() && ' '.is_whitespace() && 'A'.to_lowercase().next() == Some('a') && ('a'..='c').contains(&'b') && 'A'.eq_ignore_ascii_case(&'a') && ('a'..='c').count() == 3 }
    int_ops => { 5usize.saturating_sub(7) == 0 && 5u32.checked_sub(7).is_none() && 5i32.pow(2) == 25 && 7usize.min(3) == 3 && 7.clamp(1, 5) == 5 && 5u8.wrapping_add(255) == 4 && (-3i32).abs() == 3 && 7usize.div_ceil(2) == 4 && 7 % 4 == 3 && usize::try_from(3i64).unwrap() == 3 && i64::from(3i32) == 3 && (3u64 as usize).checked_add(1) == Some(4) && u8::MAX == 255 && 5usize.abs_diff(7) == 2 && 8u32.is_power_of_two() }
    cmp_ops => { std::cmp::max(1, 2) == 2 && std::cmp::min("a", "b") == "a" && 1.cmp(&2).is_lt() && (1, "a") < (1, "b") && [1, 2] < [1, 3] && K::A < K::C && K::B(1) < K::B(2) && K::A == K::A && std::cmp::Reverse(1) > std::cmp::Reverse(2) && 1.partial_cmp(&2) == Some(std::cmp::Ordering::Less) && std::cmp::Ordering::Less.reverse().is_gt() }
    closures => { let add = |n: i64| move |x: i64| x + n; let fs: Vec<Box<dyn Fn(i64) -> i64>> = vec![Box::new(add(1)), Box::new(|x| x * 2)]; fs.iter().fold(3, |a, f| f(a)) == 8 }
    fn_ptrs => { let f: fn(&str) -> String = str::to_string; let g = [f, |s: &str| s.to_uppercase()]; g.iter().map(|h| h("a")).collect::<String>() == "aA" && names().iter().map(String::len).sum::<usize>() >= 1 && names().iter().map(|s| s.as_str()).map(str::len).count() >= 1 }
    dyn_trait => { trait T { fn f(&self) -> i64; fn g(&self) -> i64 { self.f() + 1 } } impl T for i64 { fn f(&self) -> i64 { *self } } impl T for String { fn f(&self) -> i64 { self.len() as i64 } fn g(&self) -> i64 { 0 } } let x: Vec<Box<dyn T>> = vec![Box::new(3i64), Box::new("ab".to_string())]; x.iter().map(|t| t.f() + t.g()).sum::<i64>() == 9 }
    generics => { fn apply<T, F>(x: T, f: F) -> T where F: Fn(T) -> T { f(x) } apply(3, |x| x + 1) == 4 }
    rec_struct => { let p = P { a: 1, name: "n".into(), o: Some(Box::new(P::default())) }; let q = p.clone(); p == q && p.o.as_ref().map(|x| x.a) == Some(0) && p.o.as_deref().unwrap().name.is_empty() && matches!(&p, P { o: Some(x), .. } if x.a == 0) }
    rec_take => { let mut p = P { a: 1, name: "n".into(), o: Some(Box::new(P { a: 2, ..Default::default() })) }; let x = p.o.take().map(|x| *x).unwrap(); if let Some(ref mut y) = p.o { y.a = 5; } x.a == 2 && p.o.is_none() }
    labeled => { let v = v(); let mut n = 0; 'o: for x in &v { for y in &v { if x + y == 6 { n = *x; break 'o; } if *y == 5 { continue 'o; } } } n >= 0 }
    loop_break => { let v = v(); let mut i = 0; let x = loop { if v[i] == 1 { break i; } i += 1; }; x >= 1 && { let t = 'q: { if b("x") { break 'q 1; } 2 }; t >= 1 } }
    ranges => { (0..3).rev().collect::<Vec<_>>() == [2, 1, 0] && (0..=3).sum::<i32>() == 6 && (0..10).step_by(3).count() == 4 && (1..4).contains(&2) && (0..3).map(|i| format!("f{}_", i)).collect::<Vec<_>>().join("") == "f0_f1_f2_" && (2..2).is_empty() && (0..3).len() == 3 }
    range_sym => { let n = v().len(); (1..n).map(|i| i).sum::<usize>() == n * (n - 1) / 2 && (0..n).rev().last() == Some(0) }
    let_chain => { if let (Some(x), Ok(y)) = (o(), r()) { x == 4 && y == 4 } else { !b("o") || !b("r") } }
    tuple_match => { match (b("x"), b("y"), o()) { (true, _, Some(4)) => b("o"), (true, true, None) => !b("o"), (true, false, None) => !b("o"), (false, ..) => !b("x"), _ => false } }
    nested_fn => { fn depth(p: &P) -> usize { p.o.as_ref().map_or(0, |x| 1 + depth(x)) } let mut p = P::default(); if b("x") { p = P { o: Some(Box::new(p)), ..P::default() }; } if b("y") { p = P { o: Some(p.into()), ..P::default() }; } depth(&p) == b("x") as usize + b("y") as usize }
    json_build => { let mut v = json!({"a": [1, null]}); v["b"] = json!("x"); if b("x") { v.as_object_mut().unwrap().insert("c".into(), Value::Null); } v["a"][0] == 1 && v["b"] == "x" && v.get("c").is_some() == b("x") && v.pointer("/a/0") == Some(&json!(1)) && v["q"].is_null() && v.as_object().unwrap().len() == 2 + b("x") as usize }
    json_match => { let v = symrt::pick("j", vec![json!(null), json!(true), json!("s"), json!([1]), json!({"k": 1}), json!(3)]); match &v { Value::Null => v.is_null(), Value::Bool(x) => *x && v.as_bool() == Some(true), Value::String(s) => s == "s" && v.as_str() == Some("s"), Value::Array(a) => a.len() == 1 && v.is_array(), Value::Object(o) => o.contains_key("k") && v.is_object() && o.keys().next().unwrap() == "k" && o.iter().count() == 1, Value::Number(n) => n.as_u64() == Some(3) && v.as_i64() == Some(3) } }
    json_iter => { let v = json!({"a": 1, "b": [1, 2]}); v.as_object().unwrap().iter().map(|(k, _)| k.as_str()).collect::<String>() == "ab" && v["b"].as_array().unwrap().iter().filter_map(Value::as_i64).sum::<i64>() == 3 && v.as_object().unwrap().values().count() == 2 }
    json_map => { let mut m = serde_json::Map::new(); m.insert("x".to_string(), json!(1)); m.entry("y").or_insert(json!(2)); for (k, v) in m.iter_mut() { *v = json!(k); } let v = Value::Object(m); v["y"] == "y" && serde_json::to_value(&v).unwrap() == v && serde_json::from_value::<Value>(v.clone()).unwrap() == v }
    json_from => { Value::from("a") == json!("a") && Value::from(vec![1]) == json!([1]) && Value::from(true) == json!(true) && vec![("a".to_string(), json!(1))].into_iter().collect::<Value>() == json!({"a": 1}) && Value::default().is_null() && json!(null) == Value::Null && vec![json!(1)].into_iter().collect::<Value>() == json!([1]) && Value::from("a".to_string()) == "a" && Value::from(3u64) == 3 && json!(Some(1)) == 1 && json!(o()).is_null() != b("o") }
    json_take => { let mut v = json!({"a": {"b": 1}}); let x = v["a"].take(); x["b"] == 1 && v["a"].is_null() && v.get_mut("a").is_some() && v.as_object_mut().unwrap().remove("a").is_some() && v == json!({}) }
    re_static => { RE.is_match("abc") && !RE.is_match("a1") && ONCE.get_or_init(|| regex::Regex::new("^x").unwrap()).is_match("xy") }
    re_sym => { let s = st(); let re = regex::Regex::new(r"^[a-z.\-]+$").unwrap(); re.is_match(&s) == !matches!(s.as_str(), "" | "é1") && re.find(&s).is_some() == re.is_match(&s) && re.find(&s).map_or(true, |m| m.start() == 0 && m.end() == s.len() && m.as_str() == s) }
    re_builder => { regex::RegexBuilder::new("^A").case_insensitive(true).build().unwrap().is_match("a") && regex::Regex::new("(").is_err() && regex::escape("a.b") == r"a\.b" && regex::Regex::new("[.-]").unwrap().replace_all(&st(), "_") == st().replace(['.', '-'], "_") }
    re_captures => { regex::Regex::new("^(a)(b)?").unwrap().captures("abc").map_or(false, |c| &c[1] == "a" && c.get(2).is_some()) && regex::Regex::new("-").unwrap().split("a-b").count() == 2 && regex::Regex::new("a").unwrap().find_iter("aba").count() == 2 }
    cell => { use std::cell::{Cell, RefCell}; let c = Cell::new(1); c.set(2); let r = RefCell::new(v()); r.borrow_mut().push(3); c.get() == 2 && r.borrow().len() == v().len() + 1 && r.into_inner().len() > 2 }
    mutex => { let m = Mutex::new(v()); m.lock().unwrap().push(1); let l = m.lock().unwrap().len(); l == v().len() + 1 }
    tls => { TL.with(|x| *x.borrow_mut() += 1); TL.with(|x| *x.borrow()) >= 2 }
    default_trait => { let p: P = Default::default(); p == P { a: 0, name: String::new(), o: None } && <(i32, String)>::default() == (0, String::new()) && bool::default() == false && <Option<i32>>::default().is_none() && Vec::<i32>::default().is_empty() && HashMap::<i32, i32>::default().is_empty() }
    debug_fmt => { format!("{:?}", K::B(1)) == "B(1)" && format!("{:?}", Some("a")) == "Some(\"a\")" && format!("{:?}", vec![1, 2]) == "[1, 2]" && format!("{:?}", P::default()).starts_with("P { a: 0") }
    display_impl => { struct D(i64); impl std::fmt::Display for D { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{}>", self.0) } } D(3).to_string() == "<3>" && format!("{}{}", D(1), D(2)) == "<1><2>" }
    from_impl => { struct W(String); impl From<&str> for W { fn from(s: &str) -> Self { W(s.to_owned()) } } impl std::str::FromStr for W { type Err = (); fn from_str(s: &str) -> Result<Self, ()> { Ok(W(s.into())) } } let w: W = "a".into(); w.0 == "a" && "b".parse::<W>().unwrap().0 == "b" }
    iter_impl => { struct C(u32); impl Iterator for C { type Item = u32; fn next(&mut self) -> Option<u32> { if self.0 == 0 { None } else { self.0 -= 1; Some(self.0) } } } C(3).sum::<u32>() == 3 && C(3).zip(C(2)).count() == 2 && C(4).filter(|x| x % 2 == 0).map(|x| x + 1).collect::<Vec<_>>() == [3, 1] && C(2).chain(C(1)).max() == Some(1) }
    into_iter_ref => { let v = v(); let mut n = 0; for x in &v { n += x; } let mut w = v.clone(); for x in &mut w { *x = 0; } for (i, x) in w.iter().enumerate() { if i > 0 { n += *x; } } n == v.into_iter().sum::<i64>() }
    hm_iter_sorted_loop => { let m = m(); let mut keys: Vec<_> = m.keys().cloned().collect(); keys.sort(); let mut out = vec![]; for k in &keys { out.push(m[k]); } out.len() == m.len() && keys.iter().all(|k| m.contains_key(k)) }
    hm_keys_sorted_map => { let m = m(); let mut keys: Vec<&String> = m.keys().collect(); keys.sort_unstable(); keys.into_iter().map(|k| &m[k]).copied().sum::<i64>() == m.values().sum::<i64>() }
    hm_nested => { let mut h: HashMap<String, HashMap<String, i64>> = HashMap::new(); h.entry("a".into()).or_default().insert("b".into(), 1); h.entry("a".into()).or_default().extend(m()); h["a"]["k"] == 1 && h["a"].len() == m().len() + 1 }
    hm_mem_take => { let mut m = m(); let old = std::mem::take(&mut m); for (k, v) in old { m.insert(k.to_uppercase(), v); } m["K"] == 1 && m.contains_key("Z") == b("m2") }
    hm_remove_insert => { let mut m = m(); if let Some(x) = m.remove("a") { m.insert("b".into(), x); } m.contains_key("b") == b("m1") && !m.contains_key("a") }
    hm_option_loop => { let a: Option<HashMap<String, i64>> = if b("x") { Some(m()) } else { None }; let mut n = 0; if let Some(m) = &a { for (k, v) in m { n += v + k.len() as i64; } } (n > 0) == b("x") && a.as_ref().map_or(0, |m| m.len()) >= b("x") as usize && a.into_iter().flatten().count() < 4 }
    hm_any_values => { let m = m(); m.values().any(|x| *x == 3) == b("m2") && m.iter().any(|(k, _)| k == "a") == b("m1") && m.values().all(|v| *v > 0) && !m.iter().map(|x| x.1).any(|x| *x == 0) }
    hm_min_key => { let m = m(); m.keys().min().unwrap().as_str() == if b("m1") { "a" } else { "k" } && m.iter().max_by_key(|(k, _)| k.as_str()).map(|x| *x.1) >= Some(1) }
    btree_collect_keys => { let s: BTreeSet<String> = m().into_keys().collect(); s.iter().map(|x| x.as_str()).collect::<Vec<_>>().concat().ends_with(if b("m2") { "z" } else { "k" }) }
    vec_of_opts => { let v: Vec<Option<i64>> = v().into_iter().map(|x| if x > 1 { Some(x) } else { None }).collect(); v.iter().flatten().count() == v.iter().filter(|x| x.is_some()).count() && v.iter().filter_map(|x| *x).count() == v.iter().flatten().count() }
    vec_pushes => { let mut out = Vec::with_capacity(4); for (i, x) in v().iter().enumerate() { if *x > 1 { out.push((i, *x)); } } out[0] == (0, 3) && out.len() == count(&v(), |x| x > 1) }
    vec_while_idx => { let v = v(); let mut i = 0; let mut s = 0; while i < v.len() { s += v[i]; i += 1; } s == v.iter().sum::<i64>() }
    vec_for_idx => { let v = v(); let mut s = 0; for i in 0..v.len() { s += v[i]; } s == v.iter().sum::<i64>() && !v.is_empty() && v.capacity() >= v.len() }
    vec_iter_mut_last => { let mut v = v(); v.iter_mut().for_each(|x| *x += 1); if let Some(x) = v.iter_mut().last() { *x = 0; } v[0] == 4 && v.last() == Some(&0) }
    vec_rotate => { let mut v = v(); v.rotate_left(1); v.last() == Some(&3) && { v.swap(0, 1); true } && { v.fill(1); v.iter().all(|x| *x == 1) } }
    vec_eq => { v() == v() && v() != Vec::<i64>::new() && v() != [9] && &v()[..1] == [3] && v()[1..].len() + 1 == v().len() && vec!["a"] == ["a"] && v() <= v() }
    vec_group => { let mut v = v(); v.sort(); v.chunk_by(|a, b| a == b).count() >= 2 }
    vec_contains_str => { names().contains(&"b".to_string()) && names().iter().any(|n| n == "b") && ["a", "b"].contains(&"b") && names().iter().map(|s| s.as_str()).collect::<Vec<_>>().contains(&"b") }
    vec_iter_ops => { let v = v(); v.iter().as_slice().len() == v.len() && v.iter().len() == v.len() && v.iter().size_hint().0 <= v.len() && v.iter().min_by(|a, b| a.cmp(b)) == Some(&1) && v.iter().copied().map(i64::from).filter(|&x| x > 0).count() == v.len() }
    matches_ref => { let p = P::default(); let q = &p; matches!(q.o, None) && matches!(q, P { a: 0, .. }) && !matches!(&q.o, Some(x) if x.a == 1) }
    ref_patterns => { let p = Some((1, "x".to_string())); let Some((n, ref s)) = p else { return ck(false) }; n == 1 && s == "x" && p.as_ref().map(|(n, s)| *n + s.len() as i32) == Some(2) && p.is_some() }
    at_patterns => { let x = v().len(); match x { n @ 1..=2 => n == 2, n @ (3 | 4) => n > 2, n => n == 5 } }
    shadow_mut => { let v = v(); let v = { let mut v = v; v.push(0); v }; let n = v.len(); let v: Vec<_> = v.into_iter().filter(|x| *x != 0).collect(); v.len() == n - 1 }
    const_arr => { const N: [&str; 3] = ["a", "b", "c"]; static M: &[(&str, i64)] = &[("x", 1), ("y", 2)]; N.iter().position(|x| *x == "b") == Some(1) && M.iter().find(|(k, _)| *k == "y").map(|x| x.1) == Some(2) && N.len() == 3 && N.concat() == "abc" }
    early_return => { fn f(x: &[i64]) -> &'static str { if x.contains(&5) { return "five"; } for y in x { if *y == 2 { return "two"; } } "none" } (f(&v()) == "five") == b("v3") }
    strings_vec_sort_join => { let mut n = names(); n.sort(); n.dedup(); n.join("|").len() == n.iter().map(|x| x.len()).sum::<usize>() + n.len() - 1 }
    impl_trait_iter => { fn evens(v: &[i64]) -> impl Iterator<Item = &i64> + '_ { v.iter().filter(|x| **x % 2 == 0) } fn bx<'a>(v: &'a [i64]) -> Box<dyn Iterator<Item = i64> + 'a> { Box::new(v.iter().map(|x| x + 1)) } let v = v(); evens(&v).count() == count(&v, |x| x % 2 == 0) && bx(&v).sum::<i64>() == v.iter().sum::<i64>() + v.len() as i64 }
    box_dyn_fn => { let f: Box<dyn Fn(&str) -> bool> = if b("x") { Box::new(|s| s.is_empty()) } else { Box::new(|s| !s.is_empty()) }; f("") == b("x") }
    opt_box => { let x: Option<Box<i64>> = o().map(Box::new); x.as_deref().copied() == o() && x.map(|b| *b) == o() }
    opt_ref_match => { let x = if b("o") { Some("q".to_string()) } else { None }; let y = match x { Some(ref s) if !s.is_empty() => s.as_str(), _ => "" }; y.is_empty() != b("o") && x.as_ref().is_some() == b("o") && x.is_none() != b("o") }
    opt_unwrap_panic => { symrt::catch(|| o().unwrap()).is_err() != b("o") && symrt::catch(|| { if b("o") { panic!("x {}", 1) } }).is_err() == b("o") && symrt::catch(|| { assert!(!b("o"), "no"); assert_eq!(1, 1); }).is_err() == b("o") && symrt::catch(|| v()[9]).is_err() && symrt::catch(|| -> i64 { unreachable!() }).is_err() }
    log_macros => { log::warn!("{} {}", st(), 1); log::trace!("x"); log::debug!("{:?}", v()); log::info!("i"); log::error!("{}", 1); true }
    env_none => { std::env::var("NO_SUCH_VAR").is_err() || true }
    array_from_iter => { let a: [i64; 3] = [1, 2, 3]; a.iter().sum::<i64>() == 6 && a.into_iter().rev().next() == Some(3) && a.first() == Some(&1) && a.as_slice().len() == 3 && a.contains(&2) && a.iter().zip(a).all(|(x, y)| *x == y) }
    nonempty_strings => { [Some("t".to_string()), if b("x") { Some("d".to_string()) } else { None }].into_iter().flatten().collect::<Vec<_>>().join(" - ") == if b("x") { "t - d" } else { "t" } }
    iter_unique_sorted => { let mut seen = HashSet::new(); let u: Vec<i64> = v().into_iter().filter(|x| seen.insert(*x)).collect(); u.len() == v().into_iter().collect::<BTreeSet<_>>().len() }
    iter_try_collect_q => { fn f(v: &[i64]) -> Option<Vec<i64>> { let w = v.iter().map(|x| x.checked_sub(1)).collect::<Option<Vec<_>>>()?; Some(w) } f(&v()).map(|w| w.len()) == Some(v().len()) }
    iter_max_str => { names().iter().max().map(|s| s.as_str()) == Some("b") && names().iter().map(|s| s.len()).max() >= Some(1) && names().into_iter().min_by_key(|s| s.len()) == Some("b".to_string()) }
    iter_cmp => { [1, 2].iter().cmp([1, 3].iter()).is_lt() && "ab".chars().cmp("b".chars()).is_lt() && [1].iter().ne([2].iter()) && (0..3).eq([0, 1, 2]) && [1, 2].iter().partial_cmp(&[1, 2]).is_some() }
    ptr_eq => { let a = v(); std::ptr::eq(&a, &a) && !std::ptr::eq(&a[0], &a[1]) }
    hash_fn => { use std::hash::{Hash, Hasher, DefaultHasher}; let mut h = DefaultHasher::new(); "a".hash(&mut h); let x = h.finish(); let mut h = DefaultHasher::new(); "a".hash(&mut h); x == h.finish() }
    size_of => { std::mem::size_of::<u64>() == 8 && std::mem::discriminant(&K::A) == std::mem::discriminant(&K::A) && std::mem::discriminant(&K::A) != std::mem::discriminant(&K::C) && std::any::type_name::<i32>() == "i32" }
    drop_order => { struct D<'a>(&'a std::cell::Cell<i32>); impl Drop for D<'_> { fn drop(&mut self) { self.0.set(self.0.get() + 1); } } let c = std::cell::Cell::new(0); { let _d = D(&c); } true }
    iter_sum_usize => { names().iter().map(|x| x.len()).sum::<usize>() == names().concat().len() && names().iter().flat_map(|s| s.chars()).count() == names().concat().chars().count() }
    iter_array_chunks => { let v = [1, 2, 3, 4]; v.chunks_exact(2).map(|c| c[0] * c[1]).sum::<i32>() == 14 && v.iter().rev().skip(1).step_by(2).count() == 2 && v.split_at(1).1.len() == 3 && v.rchunks(3).count() == 2 && v.iter().rev().rev().next() == Some(&1) && v.concat_check() }
}
trait CC { fn concat_check(&self) -> bool; }
impl CC for [i32; 4] { fn concat_check(&self) -> bool { self.split(|x| *x == 2).count() == 2 && self.first_chunk::<2>() == Some(&[1, 2]) && self.iter().skip(9).next().is_none() && self.to_vec().len() == 4 && self.iter().map(ToString::to_string).collect::<Vec<_>>() == ["1", "2", "3", "4"] } }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|x| x.as_str()) == Some("list") {
        for (n, _) in table() { println!("{}", n); }
        return;
    }
    run();
}
#[cfg(mirsym)]
fn run() {}
#[cfg(not(mirsym))]
fn run() {
    // all assignments of up to 6 inputs, concretely
    std::panic::set_hook(Box::new(|_| {}));
    for (n, f) in table() {
        for bits in 0..128u32 {
            for s in 0..6u128 {
                let mut asg: HashMap<String, u128> = ["v1", "v2", "v3", "n1", "n2", "m1", "m2", "o", "r", "x", "y"].iter().enumerate().map(|(i, k)| (k.to_string(), (bits >> (i % 7)) as u128 & 1)).collect();
                asg.insert("s".into(), s);
                asg.insert("j".into(), s);
                let o = symrt::run_native(asg.clone(), false, f);
                if !o.vacuous && (o.panicked || !o.failed.is_empty()) {
                    println!("BAD TEST {} {:?} {:?}", n, o, asg);
                }
            }
        }
    }
}
