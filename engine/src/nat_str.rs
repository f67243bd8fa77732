//! str / String models.
use crate::exec::*;
use crate::nat_core::{lower_char, upper_char};
use crate::natives::*;
use crate::term::{self, T};
use crate::val::*;
use crate::Ty;
use rustc_middle::ty::TyKind;
use std::collections::HashMap;
use std::rc::Rc;

pub fn register(m: &mut HashMap<&'static str, NFn>) {
    m.insert("symrt::shims::raw_str_push", push_str);
}

fn st_str(e: &Engine, st: &State, c: &Call, i: usize) -> R<S> {
    e.s(st, &c.args[i])
}
/// leaf string (no choice left)
fn lf(e: &Engine, st: &State, v: &Val) -> R<S> {
    let s = e.s(st, v)?;
    e.leaf(st, &s)
}
fn k64(n: usize) -> T {
    term::c(64, n as u128)
}
/// byte offsets of every char boundary of a leaf
fn offsets(chars: &[T]) -> Vec<T> {
    let mut v = vec![k64(0)];
    for ch in chars {
        let l = v[v.len() - 1];
        v.push(term::bin(term::Op::Add, l, char_len(*ch)));
    }
    v
}
/// char position of a byte offset (must be decidable)
fn char_pos(e: &Engine, st: &State, chars: &[T], off: T) -> R<Option<usize>> {
    let o = e.concretize(st, off)?;
    let offs = offsets(chars);
    for (i, t) in offs.iter().enumerate() {
        let x = e.concretize(st, *t)?;
        if x == o {
            return Ok(Some(i));
        }
        if x > o {
            return Ok(None);
        }
    }
    Ok(None)
}
fn sub(chars: &[T], a: usize, b: usize) -> Val {
    Val::Str(S::from_chars(chars[a..b].to_vec()))
}

enum Pat {
    Any(Vec<T>),
    Str(S),
    Pred,
}
fn pat(e: &Engine, st: &State, ty: Ty, v: &Val) -> R<Pat> {
    match ty.kind() {
        TyKind::Char => Ok(Pat::Any(vec![e.i(st, v)?])),
        TyKind::Ref(_, t, _) => {
            if t.is_str() {
                return Ok(Pat::Str(lf(e, st, v)?));
            }
            match t.kind() {
                TyKind::Adt(..) | TyKind::Str => Ok(Pat::Str(lf(e, st, v)?)),
                TyKind::Slice(_) | TyKind::Array(..) => {
                    let (p, a, b) = e.slice(st, v)?;
                    let s = e.seq(st, &p)?.clone();
                    let mut out = vec![];
                    for i in a..b {
                        out.push(e.i(st, &s.items[i])?)
                    }
                    Ok(Pat::Any(out))
                }
                TyKind::Ref(..) => pat(e, st, *t, v),
                _ => Ok(Pat::Pred),
            }
        }
        TyKind::Array(..) => {
            let s = e.own_seq(st, v)?;
            let mut out = vec![];
            for x in &s.items {
                out.push(e.i(st, x)?)
            }
            Ok(Pat::Any(out))
        }
        TyKind::Closure(..) | TyKind::FnDef(..) | TyKind::FnPtr(..) => Ok(Pat::Pred),
        TyKind::Adt(d, _) if e.lower.path(d.did()) == "alloc::string::String" => Ok(Pat::Str(lf(e, st, v)?)),
        _ => unsup(format!("string pattern {}", ty)),
    }
}
impl Pat {
    fn len(&self) -> usize {
        match self {
            Pat::Any(_) => 1,
            Pat::Str(s) => s.chars().len(),
            Pat::Pred => 0,
        }
    }
    fn at(&self, chars: &[T], i: usize) -> T {
        match self {
            Pat::Any(v) => {
                let mut r = term::FALSE;
                if i < chars.len() {
                    for t in v {
                        r = term::or(r, term::eq(chars[i], *t));
                    }
                }
                r
            }
            Pat::Str(s) => {
                let p = s.chars();
                if i + p.len() > chars.len() {
                    return term::FALSE;
                }
                let v: Vec<T> = p.iter().enumerate().map(|(k, t)| term::eq(chars[i + k], *t)).collect();
                term::conj(&v)
            }
            Pat::Pred => term::FALSE,
        }
    }
}
/// the pattern type: first non-lifetime generic argument of the method
fn pty(c: &Call) -> Option<Ty> {
    c.inst.args.types().next()
}
macro_rules! pat_or_shim {
    ($e:expr, $st:expr, $c:expr, $shim:expr) => {{
        let t = match pty($c) {
            Some(t) => t,
            None => return unsup("pattern type"),
        };
        match pat($e, $st, t, &$c.args[1])? {
            Pat::Pred => {
                let shim: &str = $shim;
                if shim.is_empty() {
                    return unsup(format!("predicate pattern for {}", $c.name));
                }
                return Ok(Nat::Call($e.shim(shim, &[t.into()])?, $c.args.to_vec()));
            }
            p => p,
        }
    }};
}

fn new(_: &mut Engine, _: &mut State, _: &Call) -> NR {
    ok(Val::str(""))
}
fn same(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    ok(Val::Str(st_str(e, st, c, 0)?))
}
fn same_mut(_: &mut Engine, _: &mut State, c: &Call) -> NR {
    ok(c.args[0].clone())
}
fn len(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    ok(Val::Int(st_str(e, st, c, 0)?.len_bytes()))
}
fn is_empty(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let s = st_str(e, st, c, 0)?;
    ok(Val::Int(s.map_bool(&|x| term::b(x.chars().is_empty()))))
}
fn chars(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let s = lf(e, st, &c.args[0])?;
    ok(Val::iter(s.chars().into_iter().map(Val::Int).collect()))
}
fn char_indices(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let s = lf(e, st, &c.args[0])?;
    let ch = s.chars();
    let of = offsets(&ch);
    ok(Val::iter(ch.iter().zip(of).map(|(x, o)| Val::agg(vec![Val::Int(o), Val::Int(*x)])).collect()))
}
fn bytes_of(e: &Engine, st: &State, v: &Val) -> R<Vec<Val>> {
    let s = lf(e, st, v)?;
    Ok(match &s {
        S::Const(x) => x.bytes().map(|b| Val::Int(term::c(8, b as u128))).collect(),
        _ => {
            let mut o = vec![];
            for ch in s.chars() {
                if let Some(x) = term::as_const(ch) {
                    let mut buf = [0; 4];
                    for b in char::from_u32(x as u32).unwrap_or('?').encode_utf8(&mut buf).bytes() {
                        o.push(Val::Int(term::c(8, b as u128)))
                    }
                } else {
                    if term::bounds(ch, 12).1 >= 128 {
                        return unsup("bytes of symbolic non-ASCII");
                    }
                    o.push(Val::Int(term::trunc(8, ch)))
                }
            }
            o
        }
    })
}
fn bytes(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    ok(Val::iter(bytes_of(e, st, &c.args[0])?))
}
fn as_bytes(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let v = bytes_of(e, st, &c.args[0])?;
    let n = v.len();
    st.heap.push(Val::seq(v));
    let h = st.heap.len() as u32 - 1;
    ok(Val::ptr(Base::Heap(h), vec![], Meta::Slice(0, n as u32)))
}
fn into_bytes(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    ok(Val::seq(bytes_of(e, st, &c.args[0])?))
}
fn bytes_to_s(e: &Engine, st: &State, v: &Val) -> R<S> {
    let v = e.deep(st, v)?;
    match v {
        Val::Str(s) => Ok(s),
        Val::Seq(q) => {
            let xs = e.plain(st, &q)?;
            let mut bs = vec![];
            let mut all = true;
            for x in &xs {
                let t = e.i(st, x)?;
                all &= term::as_const(t).is_some();
                bs.push(t);
            }
            if all {
                let b: Vec<u8> = bs.iter().map(|t| term::as_const(*t).unwrap() as u8).collect();
                return match String::from_utf8(b) {
                    Ok(s) => Ok(S::lit(&s)),
                    Err(_) => unsup("invalid utf8"),
                };
            }
            if bs.iter().any(|t| term::bounds(*t, 12).1 >= 128) {
                return unsup("symbolic non-ASCII bytes");
            }
            Ok(S::from_chars(bs.into_iter().map(|t| term::zext(32, t)).collect()))
        }
        v => unsup(format!("bytes {}", kind(&v))),
    }
}
fn from_utf8(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    ok(Val::ok(Val::Str(bytes_to_s(e, st, &c.args[0])?)))
}
fn from_utf8_unchecked(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    ok(Val::Str(bytes_to_s(e, st, &c.args[0])?))
}
fn push_str(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let p = e.ptr(st, &c.args[0])?;
    let a = st_str(e, st, c, 0)?;
    let b = st_str(e, st, c, 1)?;
    let r = if a.leaves() * b.leaves() > 64 {
        let (a, b) = (e.leaf(st, &a)?, e.leaf(st, &b)?);
        a.concat(&b)
    } else {
        a.concat(&b)
    };
    e.wr(st, &p, Val::Str(r))?;
    ok(Val::unit())
}
fn push(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let p = e.ptr(st, &c.args[0])?;
    let a = st_str(e, st, c, 0)?;
    let t = e.i(st, &c.args[1])?;
    e.wr(st, &p, Val::Str(a.concat(&S::from_chars(vec![t]))))?;
    ok(Val::unit())
}
fn write_str(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    push_str(e, st, c)?;
    ok(Val::ok(Val::unit()))
}
fn write_char(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    push(e, st, c)?;
    ok(Val::ok(Val::unit()))
}
fn pop(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let p = e.ptr(st, &c.args[0])?;
    let mut ch = lf(e, st, &c.args[0])?.chars();
    match ch.pop() {
        None => ok(Val::none()),
        Some(t) => {
            e.wr(st, &p, Val::Str(S::from_chars(ch)))?;
            ok(Val::some(Val::Int(t)))
        }
    }
}
fn clear(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let p = e.ptr(st, &c.args[0])?;
    e.wr(st, &p, Val::str(""))?;
    ok(Val::unit())
}
fn truncate(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let p = e.ptr(st, &c.args[0])?;
    let s = st_str(e, st, c, 0)?;
    let n = e.i(st, &c.args[1])?;
    let s = if s.leaves() > 1 { e.leaf(st, &s)? } else { s };
    let ch = s.chars();
    let total = s.len_bytes();
    if !st.decide(term::ult(n, total))? {
        return ok(Val::unit());
    }
    match char_pos(e, st, &ch, n)? {
        Some(k) => {
            e.wr(st, &p, Val::Str(S::from_chars(ch[..k].to_vec())))?;
            ok(Val::unit())
        }
        None => Err(Ex::Panic("assertion failed: self.is_char_boundary(new_len)".into())),
    }
}
fn insert(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let p = e.ptr(st, &c.args[0])?;
    let ch = lf(e, st, &c.args[0])?.chars();
    let n = e.i(st, &c.args[1])?;
    let mid = match st.res(&c.args[2])? {
        Val::Int(t) => vec![*t],
        v => {
            let v = v.clone();
            lf(e, st, &v)?.chars()
        }
    };
    match char_pos(e, st, &ch, n)? {
        Some(k) => {
            let mut v = ch[..k].to_vec();
            v.extend(mid);
            v.extend_from_slice(&ch[k..]);
            e.wr(st, &p, Val::Str(S::from_chars(v)))?;
            ok(Val::unit())
        }
        None => Err(Ex::Panic("insert: not a char boundary".into())),
    }
}
fn remove(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let p = e.ptr(st, &c.args[0])?;
    let mut ch = lf(e, st, &c.args[0])?.chars();
    let n = e.i(st, &c.args[1])?;
    match char_pos(e, st, &ch, n)? {
        Some(k) if k < ch.len() => {
            let t = ch.remove(k);
            e.wr(st, &p, Val::Str(S::from_chars(ch)))?;
            ok(Val::Int(t))
        }
        _ => Err(Ex::Panic("remove: out of range".into())),
    }
}
fn is_char_boundary(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let ch = lf(e, st, &c.args[0])?.chars();
    let n = e.i(st, &c.args[1])?;
    let mut r = term::FALSE;
    for o in offsets(&ch) {
        r = term::or(r, term::eq(o, n));
    }
    ok(Val::Int(r))
}

/// range argument -> (start, end) byte offsets, by type name
fn range(e: &Engine, st: &State, ty: Ty, v: &Val, total: T) -> R<(T, T)> {
    let n = match ty.kind() {
        TyKind::Adt(d, _) => e.lower.path(d.did()),
        _ => return unsup("range type"),
    };
    let v = st.res(v)?.clone();
    let f = |i: usize| -> R<T> {
        match &v {
            Val::Agg(a) => match a.get(i) {
                Some(Val::Int(t)) => Ok(*t),
                Some(x) => e.i(st, x),
                None => unsup("range field"),
            },
            Val::Int(t) if i == 0 => Ok(*t),
            _ => unsup("range value"),
        }
    };
    let one = k64(1);
    let add = |t| term::bin(term::Op::Add, t, one);
    match n.rsplit("::").next().unwrap() {
        "Range" => Ok((f(0)?, f(1)?)),
        "RangeFrom" => Ok((f(0)?, total)),
        "RangeTo" => Ok((k64(0), f(0)?)),
        "RangeToInclusive" => Ok((k64(0), add(f(0)?))),
        "RangeInclusive" => Ok((f(0)?, add(f(1)?))),
        "RangeFull" => Ok((k64(0), total)),
        x => unsup(format!("range {}", x)),
    }
}
pub fn range_of(e: &Engine, st: &State, ty: Ty, v: &Val, total: T) -> R<(T, T)> {
    range(e, st, ty, v, total)
}
fn slice_str(e: &Engine, st: &State, s: &Val, ty: Ty, r: &Val) -> R<Option<Val>> {
    let s = lf(e, st, s)?;
    let ch = s.chars();
    let total = s.len_bytes();
    let (a, b) = range(e, st, ty, r, total)?;
    let (x, y) = (char_pos(e, st, &ch, a)?, char_pos(e, st, &ch, b)?);
    Ok(match (x, y) {
        (Some(x), Some(y)) if x <= y => Some(sub(&ch, x, y)),
        _ => None,
    })
}
fn index(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let ty = c.inst.args.types().last().unwrap();
    match slice_str(e, st, &c.args[0], ty, &c.args[1])? {
        Some(v) => ok(v),
        None => Err(Ex::Panic("str slice out of range".into())),
    }
}
fn get(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let ty = c.inst.args.types().last().unwrap();
    match slice_str(e, st, &c.args[0], ty, &c.args[1])? {
        Some(v) => ok(Val::some(v)),
        None => ok(Val::none()),
    }
}
/// <Range as SliceIndex<str>>::index(self, &str)
fn slice_index(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let adt = c.inst.args.types().next();
    let tcx = e.lower.tcx;
    let ty = match tcx.impl_of_assoc(c.inst.def_id()) {
        Some(i) => tcx.impl_trait_ref(i).instantiate(tcx, c.inst.args).skip_norm_wip().self_ty(),
        None => match adt {
            Some(t) => t,
            None => return unsup("slice index"),
        },
    };
    let r = slice_str(e, st, &c.args[1], ty, &c.args[0])?;
    let get = canon(c.name).ends_with("::get");
    match (r, get) {
        (Some(v), true) => ok(Val::some(v)),
        (None, true) => ok(Val::none()),
        (Some(v), false) => ok(v),
        (None, false) => Err(Ex::Panic("str slice out of range".into())),
    }
}
fn split_at(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let ch = lf(e, st, &c.args[0])?.chars();
    let n = e.i(st, &c.args[1])?;
    match char_pos(e, st, &ch, n)? {
        Some(k) => ok(Val::agg(vec![sub(&ch, 0, k), sub(&ch, k, ch.len())])),
        None => Err(Ex::Panic("split_at".into())),
    }
}

fn contains(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let p = pat_or_shim!(e, st, c, "str_contains_pred");
    let s = st_str(e, st, c, 0)?;
    ok(Val::Int(s.map_bool(&|x| {
        let ch = x.chars();
        let mut r = term::FALSE;
        for i in 0..=ch.len() {
            r = term::or(r, p.at(&ch, i));
        }
        r
    })))
}
fn starts_with(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let p = pat_or_shim!(e, st, c, "str_starts_with_pred");
    let s = st_str(e, st, c, 0)?;
    ok(Val::Int(s.map_bool(&|x| p.at(&x.chars(), 0))))
}
fn ends_with(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let p = pat_or_shim!(e, st, c, "str_ends_with_pred");
    let s = st_str(e, st, c, 0)?;
    ok(Val::Int(s.map_bool(&|x| {
        let ch = x.chars();
        if ch.len() < p.len() {
            term::FALSE
        } else {
            p.at(&ch, ch.len() - p.len())
        }
    })))
}
fn strip_prefix(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let p = pat_or_shim!(e, st, c, "str_strip_prefix_pred");
    let ch = lf(e, st, &c.args[0])?.chars();
    if st.decide(p.at(&ch, 0))? {
        ok(Val::some(sub(&ch, p.len(), ch.len())))
    } else {
        ok(Val::none())
    }
}
fn strip_suffix(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let p = pat_or_shim!(e, st, c, "str_strip_suffix_pred");
    let ch = lf(e, st, &c.args[0])?.chars();
    if ch.len() >= p.len() && st.decide(p.at(&ch, ch.len() - p.len()))? {
        ok(Val::some(sub(&ch, 0, ch.len() - p.len())))
    } else {
        ok(Val::none())
    }
}
fn find_g(e: &mut Engine, st: &mut State, c: &Call, rev: bool) -> NR {
    let p = pat_or_shim!(e, st, c, if rev { "str_rfind_pred" } else { "str_find_pred" });
    let ch = lf(e, st, &c.args[0])?.chars();
    let of = offsets(&ch);
    let mut idx: Vec<usize> = (0..=ch.len()).collect();
    if !rev {
        idx.reverse();
    }
    let (mut any, mut pos) = (term::FALSE, k64(0));
    for i in idx {
        let m = p.at(&ch, i);
        any = term::or(any, m);
        pos = term::ite(m, of[i], pos);
    }
    ok(e.opt(any, Val::Int(pos)))
}
fn find(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    find_g(e, st, c, false)
}
fn rfind(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    find_g(e, st, c, true)
}
/// match positions, left to right, non-overlapping
fn matches(st: &State, ch: &[T], p: &Pat) -> R<Vec<usize>> {
    let n = p.len();
    if n == 0 {
        return unsup("empty pattern");
    }
    let mut out = vec![];
    let mut i = 0;
    while i + n <= ch.len() {
        if st.decide(p.at(ch, i))? {
            out.push(i);
            i += n;
        } else {
            i += 1;
        }
    }
    Ok(out)
}
fn pieces(ch: &[T], m: &[usize], n: usize) -> Vec<Val> {
    let mut out = vec![];
    let mut a = 0;
    for i in m {
        out.push(sub(ch, a, *i));
        a = i + n;
    }
    out.push(sub(ch, a, ch.len()));
    out
}
fn split(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let cn = canon(c.name);
    let p = pat_or_shim!(
        e,
        st,
        c,
        if cn.ends_with("rsplit") {
            "str_rsplit_pred"
        } else if cn.ends_with("split_terminator") {
            "str_split_terminator_pred"
        } else {
            "str_split_pred"
        }
    );
    let ch = lf(e, st, &c.args[0])?.chars();
    let m = matches(st, &ch, &p)?;
    let v = pieces(&ch, &m, p.len());
    let v = match cn.rsplit("::").next().unwrap_or("") {
        "rsplit" => v.into_iter().rev().collect(),
        "split_terminator" => {
            let mut v = v;
            if matches!(v.last(), Some(Val::Str(S::Const(s))) if s.is_empty()) {
                v.pop();
            }
            v
        }
        _ => v,
    };
    ok(Val::iter(v))
}
fn split_inclusive(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let p = pat_or_shim!(e, st, c, "str_split_inclusive_pred");
    let ch = lf(e, st, &c.args[0])?.chars();
    let m = matches(st, &ch, &p)?;
    let mut out = vec![];
    let mut a = 0;
    for i in m {
        out.push(sub(&ch, a, i + p.len()));
        a = i + p.len();
    }
    if a < ch.len() {
        out.push(sub(&ch, a, ch.len()));
    }
    ok(Val::iter(out))
}
fn matches_g(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let cn = canon(c.name);
    let m = cn.rsplit("::").next().unwrap().to_string();
    let p = pat_or_shim!(e, st, c, if m.ends_with("indices") { if m.starts_with('r') { "" } else { "str_match_indices_pred" } } else { "str_matches_pred" });
    let ch = lf(e, st, &c.args[0])?.chars();
    let of = offsets(&ch);
    let mut hits = matches(st, &ch, &p)?;
    if m.starts_with('r') {
        if p.len() > 1 {
            return unsup("rmatches of a longer string");
        }
        hits.reverse();
    }
    let v = hits.iter().map(|i| {
        let t = sub(&ch, *i, i + p.len());
        if m.ends_with("indices") {
            Val::agg(vec![Val::Int(of[*i]), t])
        } else {
            t
        }
    });
    ok(Val::iter(v.collect()))
}
fn splitn(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let n = e.n(st, &c.args[1])?;
    let p = match pat(e, st, pty(c).unwrap(), &c.args[2])? {
        Pat::Pred => {
            let sh = if canon(c.name).ends_with("rsplitn") { "str_rsplitn_pred" } else { "str_splitn_pred" };
            return Ok(Nat::Call(e.shim(sh, &[pty(c).unwrap().into()])?, c.args.to_vec()));
        }
        p => p,
    };
    let ch = lf(e, st, &c.args[0])?.chars();
    let mut m = matches(st, &ch, &p)?;
    if n == 0 {
        return ok(Val::iter(vec![]));
    }
    let rev = canon(c.name).ends_with("rsplitn");
    if rev {
        if m.len() > n - 1 {
            m = m[m.len() - (n - 1)..].to_vec();
        }
        let mut v = pieces(&ch, &m, p.len());
        v.reverse();
        return ok(Val::iter(v));
    }
    m.truncate(n - 1);
    ok(Val::iter(pieces(&ch, &m, p.len())))
}
fn split_once(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let p = pat_or_shim!(e, st, c, if canon(c.name).ends_with("rsplit_once") { "str_rsplit_once_pred" } else { "str_split_once_pred" });
    let ch = lf(e, st, &c.args[0])?.chars();
    let m = matches(st, &ch, &p)?;
    let rev = canon(c.name).ends_with("rsplit_once");
    match if rev { m.last() } else { m.first() } {
        Some(i) => ok(Val::some(Val::agg(vec![sub(&ch, 0, *i), sub(&ch, i + p.len(), ch.len())]))),
        None => ok(Val::none()),
    }
}
fn ws(t: T) -> T {
    if let Some(x) = term::as_const(t) {
        return term::b(char::from_u32(x as u32).map(|c| c.is_whitespace()).unwrap_or(false));
    }
    let mut r = term::FALSE;
    for (a, b) in [(9u32, 13u32), (32, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000)] {
        r = term::or(r, crate::regexsym::in_range(t, a, b));
    }
    r
}
fn split_ws(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let ch = lf(e, st, &c.args[0])?.chars();
    let mut out = vec![];
    let mut a = None;
    for i in 0..ch.len() {
        if st.decide(ws(ch[i]))? {
            if let Some(x) = a.take() {
                out.push(sub(&ch, x, i))
            }
        } else if a.is_none() {
            a = Some(i)
        }
    }
    if let Some(x) = a {
        out.push(sub(&ch, x, ch.len()))
    }
    ok(Val::iter(out))
}
fn lines(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let ch = lf(e, st, &c.args[0])?.chars();
    let p = Pat::Any(vec![term::c(32, 10)]);
    let m = matches(st, &ch, &p)?;
    let mut out = vec![];
    let mut a = 0;
    let nl = m.clone();
    for i in nl.into_iter().chain(std::iter::once(ch.len())) {
        if i == ch.len() && a == i {
            break;
        }
        let mut b = i;
        if b > a && st.decide(term::eq(ch[b - 1], term::c(32, 13)))? && i < ch.len() {
            b -= 1;
        }
        out.push(sub(&ch, a, b));
        a = i + 1;
    }
    ok(Val::iter(out))
}
fn trim_by(e: &Engine, st: &State, s: &Val, f: &dyn Fn(&[T], usize) -> T, l: bool, r: bool) -> NR {
    let ch = lf(e, st, s)?.chars();
    let (mut a, mut b) = (0, ch.len());
    while l && a < b && st.decide(f(&ch, a))? {
        a += 1
    }
    while r && b > a && st.decide(f(&ch, b - 1))? {
        b -= 1
    }
    ok(sub(&ch, a, b))
}
fn side(c: &Call) -> (bool, bool) {
    let n = canon(c.name);
    let m = n.rsplit("::").next().unwrap();
    (!(m.starts_with("trim_end") || m.starts_with("trim_right")), !(m.starts_with("trim_start") || m.starts_with("trim_left")))
}
fn trim(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (l, r) = side(c);
    trim_by(e, st, &c.args[0], &|ch, i| ws(ch[i]), l, r)
}
fn trim_matches(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (l, r) = side(c);
    let p = pat_or_shim!(e, st, c, if l && r { "str_trim_pred" } else if l { "str_trim_start_pred" } else { "str_trim_end_pred" });
    if p.len() != 1 {
        // whole-string patterns (only the one-sided forms exist)
        let n = p.len();
        let ch = lf(e, st, &c.args[0])?.chars();
        let (mut a, mut b) = (0, ch.len());
        while n > 0 && l && a + n <= b && st.decide(p.at(&ch, a))? {
            a += n
        }
        while n > 0 && r && b >= a + n && st.decide(p.at(&ch, b - n))? {
            b -= n
        }
        return ok(sub(&ch, a, b));
    }
    trim_by(e, st, &c.args[0], &|ch, i| p.at(ch, i), l, r)
}
fn replace(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let p = pat_or_shim!(e, st, c, "str_replace_pred");
    let to = lf(e, st, &c.args[2])?.chars();
    let n = p.len();
    if n == 0 {
        return unsup("replace of an empty pattern");
    }
    let lim = if canon(c.name).ends_with("replacen") { e.n(st, &c.args[3])? } else { usize::MAX };
    if n == 1 && to.len() == 1 && lim == usize::MAX {
        let s = st_str(e, st, c, 0)?;
        return ok(Val::Str(s.map(&|x| {
            let ch = x.chars();
            S::from_chars((0..ch.len()).map(|i| term::ite(p.at(&ch, i), to[0], ch[i])).collect())
        })));
    }
    let ch = lf(e, st, &c.args[0])?.chars();
    let mut m = matches(st, &ch, &p)?;
    m.truncate(lim);
    let mut out = vec![];
    let mut a = 0;
    for i in m {
        out.extend_from_slice(&ch[a..i]);
        out.extend_from_slice(&to);
        a = i + n;
    }
    out.extend_from_slice(&ch[a..]);
    ok(Val::Str(S::from_chars(out)))
}
fn case_g(e: &mut Engine, st: &mut State, c: &Call, f: fn(T) -> T, cf: fn(&str) -> String, ascii: bool) -> NR {
    let s = st_str(e, st, c, 0)?;
    fn bad(s: &S) -> bool {
        match s {
            S::Ite(_, a, b) => bad(a) || bad(b),
            S::Const(_) => false,
            S::Chars(v) => v.iter().any(|t| term::as_const(*t).map(|x| x >= 128).unwrap_or_else(|| term::bounds(*t, 12).1 >= 128)),
        }
    }
    if !ascii && bad(&s) {
        return unsup("case of symbolic non-ASCII string");
    }
    ok(Val::Str(s.map(&|x| match x {
        S::Const(t) => S::lit(&cf(t)),
        x => S::from_chars(x.chars().into_iter().map(f).collect()),
    })))
}
fn to_lower(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    case_g(e, st, c, lower_char, |s| s.to_lowercase(), false)
}
fn to_upper(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    case_g(e, st, c, upper_char, |s| s.to_uppercase(), false)
}
fn to_ascii_lower(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    case_g(e, st, c, lower_char, |s| s.to_ascii_lowercase(), true)
}
fn to_ascii_upper(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    case_g(e, st, c, upper_char, |s| s.to_ascii_uppercase(), true)
}
fn make_lower(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let p = e.ptr(st, &c.args[0])?;
    if let Nat::Val(v) = to_ascii_lower(e, st, c)? {
        e.wr(st, &p, v)?;
    }
    ok(Val::unit())
}
fn make_upper(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let p = e.ptr(st, &c.args[0])?;
    if let Nat::Val(v) = to_ascii_upper(e, st, c)? {
        e.wr(st, &p, v)?;
    }
    ok(Val::unit())
}
fn eq_icase(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (a, b) = (st_str(e, st, c, 0)?, st_str(e, st, c, 1)?);
    let f = |s: &S| s.map(&|x| S::from_chars(x.chars().into_iter().map(lower_char).collect()));
    ok(Val::Int(f(&a).eq(&f(&b))))
}
fn is_ascii(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let s = st_str(e, st, c, 0)?;
    ok(Val::Int(s.map_bool(&|x| {
        let v: Vec<T> = x.chars().into_iter().map(|t| term::ult(t, term::c(32, 128))).collect();
        term::conj(&v)
    })))
}
fn repeat(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let ch = lf(e, st, &c.args[0])?.chars();
    let n = e.n(st, &c.args[1])?;
    if n > 100_000 {
        return unsup("repeat");
    }
    let mut v = vec![];
    for _ in 0..n {
        v.extend_from_slice(&ch);
    }
    ok(Val::Str(S::from_chars(v)))
}
fn seq_join(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (p, a, b) = e.slice(st, &c.args[0])?;
    let idx = e.present(st, &p, a, b)?;
    let sep = if c.args.len() > 1 { st_str(e, st, c, 1)? } else { S::lit("") };
    let s = e.seq(st, &p)?.clone();
    let mut r = S::lit("");
    for (k, i) in idx.iter().enumerate() {
        if k > 0 {
            r = r.concat(&sep);
        }
        r = r.concat(&e.s(st, &s.items[*i])?);
        if r.leaves() > 200 {
            r = r.prune(st);
            if r.leaves() > 200 {
                if let Some(g) = r.open_guard(st) {
                    return Err(Ex::Split(g));
                }
            }
        }
    }
    ok(Val::Str(r))
}
fn eq(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (a, b) = (st_str(e, st, c, 0)?, st_str(e, st, c, 1)?);
    ok(Val::Int(a.eq(&b)))
}
fn ne(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (a, b) = (st_str(e, st, c, 0)?, st_str(e, st, c, 1)?);
    ok(Val::Int(term::not(a.eq(&b))))
}
fn cmp(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (a, b) = (st_str(e, st, c, 0)?, st_str(e, st, c, 1)?);
    ok(cmp_val(a.lt(&b), a.eq(&b)))
}
fn partial_cmp(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    match cmp(e, st, c)? {
        Nat::Val(v) => ok(Val::some(v)),
        _ => unreachable!(),
    }
}
fn lt(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (a, b) = (st_str(e, st, c, 0)?, st_str(e, st, c, 1)?);
    let n = canon(c.name);
    ok(Val::Int(match n.rsplit("::").next().unwrap() {
        "lt" => a.lt(&b),
        "le" => term::not(b.lt(&a)),
        "gt" => b.lt(&a),
        _ => term::not(a.lt(&b)),
    }))
}
fn add(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (a, b) = (st_str(e, st, c, 0)?, st_str(e, st, c, 1)?);
    ok(Val::Str(a.concat(&b)))
}
fn from_char(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let t = e.i(st, &c.args[0])?;
    ok(Val::Str(S::from_chars(vec![t])))
}
fn string_from(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    match st.res(&c.args[0])? {
        Val::Int(_) => from_char(e, st, c),
        _ => same(e, st, c),
    }
}
fn to_string(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let mut t = e.ty_arg(c, 0);
    let v0 = c.args[0].clone();
    while let TyKind::Ref(_, i, _) = t.kind() {
        t = *i;
    }
    match t.kind() {
        TyKind::Str => return ok(Val::Str(e.s(st, &v0)?)),
        TyKind::Adt(d, _) if ["alloc::string::String", "alloc::borrow::Cow"].contains(&e.lower.path(d.did()).as_str()) => {
            let v = e.deep(st, &v0)?;
            return ok(Val::Str(e.s(st, &v)?));
        }
        TyKind::Char => {
            let v = e.deep(st, &v0)?;
            let t = e.i(st, &v)?;
            return ok(Val::Str(S::from_chars(vec![t])));
        }
        TyKind::Bool => {
            let v = e.deep(st, &v0)?;
            let t = e.i(st, &v)?;
            return ok(Val::Str(S::ite(t, S::lit("true"), S::lit("false"))));
        }
        _ => {}
    }
    let t = e.ty_arg(c, 0);
    Ok(Nat::Call(e.shim("to_string_display", &[t.into()])?, vec![v0]))
}
fn case_display(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let v = e.deep(st, &c.args[0])?;
    let Val::Iter(it) = &v else { return unsup("case mapping display") };
    let mut ch = vec![];
    for x in &it.seq.items[it.i..it.end] {
        ch.push(e.i(st, x)?)
    }
    Ok(Nat::Call(e.shim("fmt_pad", &[])?, vec![c.args[1].clone(), Val::Str(S::from_chars(ch))]))
}
/// str_split etc. shims: raw push
fn drain_all(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    // String::drain(range)
    let ty = c.inst.args.types().last().unwrap();
    let p = e.ptr(st, &c.args[0])?;
    let s = lf(e, st, &c.args[0])?;
    let ch = s.chars();
    let (a, b) = range(e, st, ty, &c.args[1], s.len_bytes())?;
    match (char_pos(e, st, &ch, a)?, char_pos(e, st, &ch, b)?) {
        (Some(x), Some(y)) if x <= y => {
            let mut rest = ch[..x].to_vec();
            rest.extend_from_slice(&ch[y..]);
            e.wr(st, &p, Val::Str(S::from_chars(rest)))?;
            ok(Val::iter(ch[x..y].iter().map(|t| Val::Int(*t)).collect()))
        }
        _ => Err(Ex::Panic("drain out of range".into())),
    }
}
fn iter_as_str(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let v = e.deep(st, &c.args[0])?;
    let Val::Iter(it) = &v else { return unsup("as_str of iterator") };
    let mut ch = vec![];
    for x in &it.seq.items[it.i..it.end] {
        match x {
            Val::Agg(a) => ch.push(e.i(st, &a[1])?),
            x => ch.push(e.i(st, x)?),
        }
    }
    ok(Val::Str(S::from_chars(ch)))
}
fn parse(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let t = c.inst.args.types().last().unwrap();
    parse_as(e, st, c, t)
}
fn parse_as(e: &mut Engine, st: &mut State, c: &Call, t: Ty) -> NR {
    if !t.is_bool() && crate::lower::int_width(t).is_none() || t.is_char() {
        // FromStr::from_str of another type
        let tcx = e.lower.tcx;
        let tr = match e.find_trait("core::str::traits::FromStr").or_else(|| e.find_trait("core::str::FromStr")) {
            Some(d) => d,
            None => return unsup("FromStr lookup"),
        };
        let m = tcx.associated_items(tr).in_definition_order().find(|i| i.name().as_str() == "from_str").unwrap().def_id;
        return match e.lower.resolve(m, tcx.mk_args(&[t.into()])) {
            Some(inst) => Ok(Nat::Call(inst, c.args.to_vec())),
            None => unsup("from_str resolve"),
        };
    }
    let s = lf(e, st, &c.args[0])?;
    let x = match s.as_const() {
        Some(x) => x.to_string(),
        None => {
            // pin every character
            let mut x = String::new();
            for t in s.chars() {
                let (lo, hi) = term::bounds(t, 12);
                if hi - lo > 300 {
                    return unsup("parse of symbolic string");
                }
                x.push(char::from_u32(e.concretize(st, t)? as u32).unwrap_or('?'));
            }
            x
        }
    };
    let err = || Val::err(Val::Opaque(Rc::new(Opaque::Tagged("parse-error", vec![]))));
    if t.is_bool() {
        return ok(x.parse::<bool>().map(|b| Val::ok(Val::bool(b))).unwrap_or_else(|_| err()));
    }
    if let Some(w) = crate::lower::int_width(t) {
        if matches!(t.kind(), TyKind::Uint(_)) {
            return ok(match x.parse::<u128>() {
                Ok(n) if w >= 128 || n < (1u128 << w) => Val::ok(Val::Int(term::c(w, n))),
                _ => err(),
            });
        }
        if matches!(t.kind(), TyKind::Int(_)) {
            return ok(match x.parse::<i128>() {
                Ok(n) if w >= 128 || (n >= -(1i128 << (w - 1)) && n < (1i128 << (w - 1))) => Val::ok(Val::Int(term::c(w, n as u128))),
                _ => err(),
            });
        }
    }
    unsup("parse")
}

fn from_str_string(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    ok(Val::ok(Val::Str(st_str(e, st, c, 0)?)))
}
fn parse_self(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let n = canon(c.name);
    let (ty, _, _) = split_name(&n).unwrap();
    let tcx = e.lower.tcx;
    let t = &tcx.types;
    let t = match ty {
        "bool" => t.bool,
        "u8" => t.u8,
        "u16" => t.u16,
        "u32" => t.u32,
        "u64" => t.u64,
        "usize" => t.usize,
        "i8" => t.i8,
        "i16" => t.i16,
        "i32" => t.i32,
        "i64" => t.i64,
        "isize" => t.isize,
        _ => return unsup("from_str"),
    };
    parse_as(e, st, c, t)
}
/// (self type, trait, method) of a canonical path, by short names; trait may be empty
pub fn split_name(c: &str) -> Option<(&str, &str, &str)> {
    if let Some(i) = c.find("<impl ") {
        // find the matching '>'
        let rest = &c[i + 6..];
        let mut d = 1;
        let mut j = 0;
        let b = rest.as_bytes();
        while j < b.len() {
            if b[j] == b'<' {
                d += 1
            }
            if b[j] == b'>' && (j == 0 || b[j - 1] != b'-') {
                d -= 1;
                if d == 0 {
                    break;
                }
            }
            j += 1;
        }
        let inner = &rest[..j];
        let m = rest.get(j + 3..)?;
        return match inner.find(" for ") {
            Some(k) => Some((&inner[k + 5..], &inner[..k], m)),
            None => Some((inner, "", m)),
        };
    }
    if c.starts_with('<') {
        let e = c.rfind(">::")?;
        let inner = &c[1..e];
        let k = inner.find(" as ")?;
        return Some((&inner[..k], &inner[k + 4..], &c[e + 3..]));
    }
    let k = c.rfind("::")?;
    Some((&c[..k], "", &c[k + 2..]))
}
fn short(t: &str) -> &str {
    t.rsplit("::").next().unwrap_or(t)
}

pub fn pattern(_name: &str, c: &str) -> Option<NFn> {
    let (ty, tr, m) = split_name(c)?;
    let t = short(ty);
    let tr = short(tr);
    let is_str = ty == "str" || ty == "&str" || ty == "&mut str";
    let is_string = ty == "alloc::string::String" || ty == "&alloc::string::String" || ty == "&mut alloc::string::String";
    let f: NFn = match (t, tr, m) {
        ("String", "", "new" | "with_capacity") if is_string => new,
        ("String", "Default", "default") => new,
        ("str" | "&str", "Default", "default") => new,
        (_, "Clone" | "ToOwned", "clone" | "to_owned") if is_string || ty == "str" => same,
        (_, "Deref", "deref") if is_string => same,
        (_, "DerefMut", "deref_mut") if is_string => same_mut,
        (_, "AsRef" | "Borrow", "as_ref" | "borrow") if is_string || is_str => {
            if c.contains("[u8]") {
                as_bytes
            } else {
                same
            }
        }
        ("String", "", "as_str") if is_string => same,
        ("String", "", "as_mut_str") if is_string => same_mut,
        ("String", "", "into_boxed_str" | "leak") if is_string => same,
        ("str", "", "to_string" | "to_owned" | "into_string" | "into_boxed_str") => same,
        (_, "From", "from") if is_string => string_from,
        (_, "From", "from") if ty == "alloc::boxed::Box" && c.contains("str>") => return None,
        (_, "", "from_utf8" | "from_utf8_lossy") if is_string => from_utf8,
        ("String", "", "from_utf8_unchecked") if is_string => from_utf8_unchecked,
        (_, "", "from_utf8") if ty == "core::str::converts" || ty == "core::str" => from_utf8,
        (_, "", "from_utf8_unchecked") if ty == "core::str::converts" || ty == "core::str" => from_utf8_unchecked,
        (_, "", "len") if is_string || ty == "str" => len,
        (_, "", "is_empty") if is_string || ty == "str" => is_empty,
        (_, "", "chars") if ty == "str" => chars,
        (_, "", "char_indices") if ty == "str" => char_indices,
        (_, "", "bytes") if ty == "str" => bytes,
        (_, "", "as_bytes") if is_string || ty == "str" => as_bytes,
        ("String", "", "into_bytes") if is_string => into_bytes,
        ("String", "", "push_str") if is_string => push_str,
        ("String", "", "push") if is_string => push,
        ("String", "", "pop") if is_string => pop,
        ("String", "", "clear") if is_string => clear,
        ("String", "", "truncate") if is_string => truncate,
        ("String", "", "insert" | "insert_str") if is_string => insert,
        ("String", "", "remove") if is_string => remove,
        ("String", "", "drain") if is_string => drain_all,
        ("String", "", "reserve" | "reserve_exact" | "shrink_to_fit") if is_string => unit_fn,
        ("String", "Write", "write_str") => write_str,
        ("String", "Write", "write_char") => write_char,
        ("String", "Add", "add") => add,
        ("String", "AddAssign", "add_assign") => push_str,
        (_, "PartialEq", "eq") if is_string || is_str => eq,
        (_, "PartialEq", "ne") if is_string || is_str => ne,
        (_, "Ord", "cmp") if is_string || is_str => cmp,
        (_, "PartialOrd", "partial_cmp") if is_string || is_str => partial_cmp,
        (_, "PartialOrd", "lt" | "le" | "gt" | "ge") if is_string || is_str => lt,
        (_, "Hash", _) if is_string || is_str => unit_fn,
        (_, "Index", "index") if is_string || ty == "str" => index,
        (_, "SliceIndex", "index" | "get") if c.contains("SliceIndex for") || c.starts_with('<') => {
            if _name.contains("SliceIndex<str>") {
                slice_index
            } else {
                return None;
            }
        }
        ("str", "", "get") => get,
        ("str", "", "split_at") => split_at,
        ("str", "", "is_char_boundary") => is_char_boundary,
        ("str", "", "contains") => contains,
        ("str", "", "starts_with") => starts_with,
        ("str", "", "ends_with") => ends_with,
        ("str", "", "strip_prefix") => strip_prefix,
        ("str", "", "strip_suffix") => strip_suffix,
        ("str", "", "find") => find,
        ("str", "", "rfind") => rfind,
        ("str", "", "split" | "rsplit" | "split_terminator") => split,
        ("str", "", "split_inclusive") => split_inclusive,
        ("str", "", "matches" | "rmatches" | "match_indices" | "rmatch_indices") => matches_g,
        ("str", "", "splitn" | "rsplitn") => splitn,
        ("str", "", "split_once" | "rsplit_once") => split_once,
        ("str", "", "split_whitespace" | "split_ascii_whitespace") => split_ws,
        ("str", "", "lines") => lines,
        ("str", "", "trim" | "trim_start" | "trim_end" | "trim_left" | "trim_right") => trim,
        ("str", "", "trim_matches" | "trim_start_matches" | "trim_end_matches" | "trim_left_matches" | "trim_right_matches") => trim_matches,
        ("str", "", "replace" | "replacen") => replace,
        ("str", "", "to_lowercase") => to_lower,
        ("str", "", "to_uppercase") => to_upper,
        ("str", "", "to_ascii_lowercase") => to_ascii_lower,
        ("str", "", "to_ascii_uppercase") => to_ascii_upper,
        ("str", "", "make_ascii_lowercase") => make_lower,
        ("str", "", "make_ascii_uppercase") => make_upper,
        ("str", "", "eq_ignore_ascii_case") => eq_icase,
        ("str", "", "is_ascii") => is_ascii,
        ("str", "", "repeat") => repeat,
        ("str", "", "parse") => parse,
        ("String", "FromStr", "from_str") => from_str_string,
        (_, "FromStr", "from_str") if ty == "bool" || ty == "usize" || (ty.len() <= 4 && (ty.starts_with('u') || ty.starts_with('i'))) => parse_self,
        ("Vec", "From", "from") if _name.contains("From<&str>") || _name.contains("From<alloc::string::String>") => into_bytes,
        ("Rc" | "Arc" | "Box", "From", "from") if _name.contains("From<&str>") || _name.contains("From<alloc::string::String>") && _name.contains("str>") => same,

        ("[S]" | "[V]", "Join", "join") => {
            if _name.contains("Join<&str>") {
                seq_join
            } else {
                return None;
            }
        }
        ("[S]", "Concat", "concat") => {
            if _name.contains("Concat<str>") {
                seq_join
            } else {
                return None;
            }
        }
        ("T", "ToString", "to_string") => to_string,
        ("String" | "str", "ToString", "to_string") => same,
        ("String" | "str", "SpecToString", "spec_to_string") => same,
        ("ToLowercase" | "ToUppercase", "Display", "fmt") => case_display,
        ("Chars" | "CharIndices", "", "as_str") if ty.starts_with("core::str") => iter_as_str,
        _ => return None,
    };
    Some(f)
}
