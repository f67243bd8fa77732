//! Vec / slice / array / map / set / iterator models.
use crate::exec::*;
use crate::nat_str::{range_of, split_name};
use crate::natives::*;
use crate::term::{self, T};
use crate::val::*;
use rustc_middle::ty::TyKind;
use std::collections::HashMap;
use std::rc::Rc;

fn k64(n: usize) -> T {
    term::c(64, n as u128)
}
fn last<'a>(c: &'a Call) -> String {
    canon(c.name).rsplit("::").next().unwrap().to_string()
}

// ---------------------------------------------------------------- sequences

fn vec_new(_: &mut Engine, _: &mut State, _: &Call) -> NR {
    ok(Val::seq(vec![]))
}
fn as_slice(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    if let Val::Str(s) = st.res(&c.args[0])? {
        return ok(Val::Str(s.clone()));
    }
    let (p, a, b) = e.slice(st, &c.args[0])?;
    ok(Val::ptr(p.base, p.path.clone(), Meta::Slice(a as u32, (b - a) as u32)))
}
fn vec_len(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (p, a, b) = e.slice(st, &c.args[0])?;
    ok(Val::Int(e.seq(st, &p)?.count(a, b)))
}
fn vec_is_empty(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (p, a, b) = e.slice(st, &c.args[0])?;
    let s = e.seq(st, &p)?;
    let v: Vec<T> = (a..b).map(|i| term::not(s.guard(i))).collect();
    ok(Val::Int(term::conj(&v)))
}
fn with_seq(e: &Engine, st: &mut State, v: &Val, f: &mut dyn FnMut(&mut SeqV)) -> R<()> {
    let (p, _, _) = e.slice(st, v)?;
    let mut s = (**e.seq(st, &p)?).clone();
    f(&mut s);
    let s = SeqV::new(s.items, if s.guards.is_empty() { vec![] } else { s.guards });
    st.set(p.base, &p.path, Val::Seq(Rc::new(s)))
}
fn vec_push(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let x = c.args[1].clone();
    with_seq(e, st, &c.args[0], &mut |s| s.push(term::TRUE, x.clone()))?;
    ok(Val::unit())
}
/// physical range of the logical range [x, y) when the present positions are `pi`
pub fn phys_range(pi: &[usize], a: usize, x: usize, y: usize) -> (usize, usize) {
    if x < y {
        (pi[x], pi[y - 1] + 1)
    } else {
        let k = pi.get(x).copied().unwrap_or(a);
        (k, k)
    }
}
fn slice_at(p: &PtrV, r: (usize, usize)) -> Val {
    Val::ptr(p.base, p.path.clone(), Meta::Slice(r.0 as u32, (r.1 - r.0) as u32))
}
/// make the sequence plain (forks on guards) and return (ptr, items)
fn plain_at(e: &Engine, st: &State, v: &Val) -> R<(Rc<PtrV>, Vec<Val>)> {
    let (p, a, b) = e.slice(st, v)?;
    let idx = e.present(st, &p, a, b)?;
    let s = e.seq(st, &p)?;
    Ok((p.clone(), idx.into_iter().map(|i| s.items[i].clone()).collect()))
}
fn put(st: &mut State, p: &PtrV, v: Vec<Val>) -> R<()> {
    st.set(p.base, &p.path, Val::seq(v))
}
fn vec_pop(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (p, mut v) = plain_at(e, st, &c.args[0])?;
    let r = v.pop();
    put(st, &p, v)?;
    ok(r.map(Val::some).unwrap_or_else(Val::none))
}
fn vec_insert(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let n = e.n(st, &c.args[1])?;
    let (p, mut v) = plain_at(e, st, &c.args[0])?;
    if n > v.len() {
        return Err(Ex::Panic("insertion index out of range".into()));
    }
    v.insert(n, c.args[2].clone());
    put(st, &p, v)?;
    ok(Val::unit())
}
fn vec_remove(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let n = e.n(st, &c.args[1])?;
    let (p, mut v) = plain_at(e, st, &c.args[0])?;
    if n >= v.len() {
        return Err(Ex::Panic("removal index out of range".into()));
    }
    let x = if last(c) == "swap_remove" { v.swap_remove(n) } else { v.remove(n) };
    put(st, &p, v)?;
    ok(x)
}
fn vec_clear(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (p, _, _) = e.slice(st, &c.args[0])?;
    put(st, &p, vec![])?;
    ok(Val::unit())
}
fn vec_truncate(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let n = e.n(st, &c.args[1])?;
    let (p, mut v) = plain_at(e, st, &c.args[0])?;
    v.truncate(n);
    put(st, &p, v)?;
    ok(Val::unit())
}
fn vec_split_off(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let n = e.n(st, &c.args[1])?;
    let (p, mut v) = plain_at(e, st, &c.args[0])?;
    if n > v.len() {
        return Err(Ex::Panic("split_off".into()));
    }
    let r = v.split_off(n);
    put(st, &p, v)?;
    ok(Val::seq(r))
}
fn sub_seq(s: &SeqV, a: usize, b: usize) -> SeqV {
    SeqV::new(s.items[a..b].to_vec(), if s.guards.is_empty() { vec![] } else { s.guards[a..b].to_vec() })
}
fn vec_append(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (q, a, b) = e.slice(st, &c.args[1])?;
    let o = sub_seq(e.seq(st, &q)?, a, b);
    with_seq(e, st, &c.args[0], &mut |s| {
        for i in 0..o.items.len() {
            s.push(o.guard(i), o.items[i].clone())
        }
    })?;
    if last(c) == "append" {
        put(st, &q, vec![])?;
    }
    ok(Val::unit())
}
fn to_vec(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (p, a, b) = e.slice(st, &c.args[0])?;
    ok(Val::Seq(Rc::new(sub_seq(e.seq(st, &p)?, a, b))))
}
fn to_seq(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let s = e.own_seq(st, &c.args[0])?;
    ok(Val::Seq(s))
}
fn vec_from(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    match st.res(&c.args[0])? {
        Val::Ptr(_) => to_vec(e, st, c),
        Val::Str(_) => unsup("vec from str"),
        _ => to_seq(e, st, c),
    }
}
fn into_boxed(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let s = e.own_seq(st, &c.args[0])?;
    ok(Val::Box(Rc::new(Val::Seq(s)), None))
}
fn from_elem(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let n = e.n(st, &c.args[1])?;
    if n > 100_000 {
        return unsup("vec![x; n]");
    }
    ok(Val::seq(vec![c.args[0].clone(); n]))
}
/// first or last present element pointer
fn edge(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (p, a, b) = e.slice(st, &c.args[0])?;
    let n = last(c);
    let s = e.seq(st, &p)?.clone();
    let it: Vec<usize> = if n.starts_with("last") || n.starts_with("back") { (a..b).rev().collect() } else { (a..b).collect() };
    for i in it {
        if st.decide(s.guard(i))? {
            return ok(Val::some(e.elem_ptr(&p, i)));
        }
    }
    ok(Val::none())
}
fn split_edge(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (p, a, b) = e.slice(st, &c.args[0])?;
    let pi = e.present(st, &p, a, b)?;
    let n = pi.len();
    if n == 0 {
        return ok(Val::none());
    }
    ok(Val::some(if last(c).starts_with("split_first") {
        Val::agg(vec![e.elem_ptr(&p, pi[0]), slice_at(&p, phys_range(&pi, a, 1, n))])
    } else {
        Val::agg(vec![e.elem_ptr(&p, pi[n - 1]), slice_at(&p, phys_range(&pi, a, 0, n - 1))])
    }))
}
fn split_at(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let k = e.n(st, &c.args[1])?;
    let (p, a, b) = e.slice(st, &c.args[0])?;
    let pi = e.present(st, &p, a, b)?;
    let n = pi.len();
    let opt = last(c).ends_with("checked");
    if k > n {
        return if opt { ok(Val::none()) } else { Err(Ex::Panic("mid > len".into())) };
    }
    let v = Val::agg(vec![slice_at(&p, phys_range(&pi, a, 0, k)), slice_at(&p, phys_range(&pi, a, k, n))]);
    ok(if opt { Val::some(v) } else { v })
}
/// index with usize or range: Ok(None) when out of range
fn idx(e: &Engine, st: &State, s: &Val, ty: crate::Ty, i: &Val) -> R<Option<Val>> {
    let (p, a, b) = e.slice(st, s)?;
    if crate::lower::int_width(ty).is_some() {
        let q = e.seq(st, &p)?;
        let n = q.count(a, b);
        let t = e.i(st, i)?;
        if !st.decide(term::ult(t, n))? {
            return Ok(None);
        }
        let k = e.concretize(st, t)? as usize;
        let ph = e.phys(st, p.base, &p.path, Meta::Slice(a as u32, (b - a) as u32), k, false)?;
        return Ok(Some(e.elem_ptr(&p, ph as usize)));
    }
    let pi = e.present(st, &p, a, b)?;
    let (x, y) = range_of(e, st, ty, i, k64(pi.len()))?;
    let (x, y) = (e.concretize(st, x)? as usize, e.concretize(st, y)? as usize);
    if x > y || y > pi.len() {
        return Ok(None);
    }
    Ok(Some(slice_at(&p, phys_range(&pi, a, x, y))))
}
fn index(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let tys: Vec<_> = c.inst.args.types().collect();
    let ty = if canon(c.name).contains("Vec") { tys[1] } else { tys[tys.len() - 1] };
    match idx(e, st, &c.args[0], ty, &c.args[1])? {
        Some(v) => ok(v),
        None => Err(Ex::Panic("index out of bounds".into())),
    }
}
fn get(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let ty = c.inst.args.types().last().unwrap();
    match idx(e, st, &c.args[0], ty, &c.args[1])? {
        Some(v) => ok(Val::some(v)),
        None => ok(Val::none()),
    }
}
fn seq_iter(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (p, a, b) = e.slice(st, &c.args[0])?;
    let s = e.seq(st, &p)?;
    let mut items = vec![];
    let mut gs = vec![];
    for i in a..b {
        let g = s.guard(i);
        if g != term::FALSE {
            items.push(e.elem_ptr(&p, i));
            gs.push(g);
        }
    }
    ok(Val::giter(items, gs))
}
fn owned_iter(s: &SeqV) -> Val {
    let mut items = vec![];
    let mut gs = vec![];
    for i in 0..s.items.len() {
        let g = s.guard(i);
        if g != term::FALSE {
            items.push(s.items[i].clone());
            gs.push(g);
        }
    }
    Val::giter(items, gs)
}
fn seq_into_iter(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let s = e.own_seq(st, &c.args[0])?;
    ok(owned_iter(&s))
}
fn vec_drain(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let ty = c.inst.args.types().last().unwrap();
    let (p, mut v) = plain_at(e, st, &c.args[0])?;
    let (x, y) = range_of(e, st, ty, &c.args[1], k64(v.len()))?;
    let (x, y) = (e.concretize(st, x)? as usize, e.concretize(st, y)? as usize);
    if x > y || y > v.len() {
        return Err(Ex::Panic("drain out of range".into()));
    }
    let d: Vec<Val> = v.drain(x..y).collect();
    put(st, &p, v)?;
    ok(Val::iter(d))
}
fn seq_contains(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    e.plain_eq(e.ty_arg(c, 0))?;
    let (p, a, b) = e.slice(st, &c.args[0])?;
    let s = e.seq(st, &p)?.clone();
    let mut r = term::FALSE;
    for i in a..b {
        if s.guard(i) == term::FALSE {
            continue;
        }
        let q = e.eq(st, &s.items[i], &c.args[1])?;
        r = term::or(r, term::and(s.guard(i), q));
    }
    ok(Val::Int(r))
}
fn reverse(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (_, a, b) = e.slice(st, &c.args[0])?;
    with_seq(e, st, &c.args[0], &mut |s| {
        s.items[a..b].reverse();
        if !s.guards.is_empty() {
            s.guards[a..b].reverse()
        }
    })?;
    ok(Val::unit())
}
fn swap(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (i, j) = (e.n(st, &c.args[1])?, e.n(st, &c.args[2])?);
    let (p, a, b) = e.slice(st, &c.args[0])?;
    let pi = e.present(st, &p, a, b)?;
    if i >= pi.len() || j >= pi.len() {
        return Err(Ex::Panic("swap out of range".into()));
    }
    let (x, y) = (pi[i], pi[j]);
    with_seq(e, st, &c.args[0], &mut |s| {
        s.items.swap(x, y);
    })?;
    ok(Val::unit())
}
fn seq_take(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (p, a, b) = e.slice(st, &c.args[0])?;
    let s = sub_seq(e.seq(st, &p)?, a, b);
    put(st, &p, vec![])?;
    ok(Val::Seq(Rc::new(s)))
}
fn sort_by_keys(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (p, a, b) = e.slice(st, &c.args[0])?;
    let s = e.seq(st, &p)?.clone();
    let ks = e.own_seq(st, &c.args[1])?;
    let kty = e.ty_arg(c, 1);
    let on = |g: T| !matches!(st.decide(g), Ok(false));
    let live: Vec<usize> = (a..b).filter(|i| on(s.guard(*i))).collect();
    let kl: Vec<usize> = (0..ks.items.len()).filter(|i| on(ks.guard(*i))).collect();
    let aligned = live.len() == kl.len() && live.iter().zip(&kl).all(|(i, j)| s.guard(*i) == ks.guard(*j));
    let (live, kl) = if aligned {
        (live, kl)
    } else {
        let x = e.present(st, &p, a, b)?;
        let mut y = vec![];
        for i in kl {
            if st.decide(ks.guard(i))? {
                y.push(i)
            }
        }
        (x, y)
    };
    if live.len() != kl.len() {
        return unsup("sort keys mismatch");
    }
    let mut order: Vec<usize> = vec![];
    for i in 0..live.len() {
        let mut j = order.len();
        while j > 0 {
            // comparisons between items that cannot coexist do not matter
            let (gi, gj) = (s.guard(live[i]), s.guard(live[order[j - 1]]));
            let both = term::and(gi, gj);
            let apart = matches!(st.decide(both), Ok(false));
            let l = match e.lt(st, kty, &ks.items[kl[i]], &ks.items[kl[order[j - 1]]]) {
                Ok(l) => l,
                // a key of an item that is not there on this path: decide which one, and start again without it
                Err(Ex::Unsup(m)) => {
                    st.decide(gi)?;
                    st.decide(gj)?;
                    return Err(Ex::Unsup(m));
                }
                Err(x) => return Err(x),
            };
            match st.known(l) {
                Some(true) => {}
                Some(false) => break,
                None if apart => {
                    st.decide(gi)?;
                    st.decide(gj)?;
                    return Err(Ex::Infeasible);
                }
                None => {
                    if !st.decide(l)? {
                        break;
                    }
                }
            }
            j -= 1;
        }
        order.insert(j, i);
    }
    let mut items: Vec<Val> = s.items[..a].to_vec();
    let mut gs: Vec<T> = (0..a).map(|i| s.guard(i)).collect();
    for i in order {
        items.push(s.items[live[i]].clone());
        gs.push(s.guard(live[i]));
    }
    if b < s.items.len() {
        items.extend_from_slice(&s.items[b..]);
        gs.extend((b..s.items.len()).map(|i| s.guard(i)));
    }
    st.set(p.base, &p.path, Val::gseq(items, gs))?;
    ok(Val::unit())
}
fn seq_eq(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    e.plain_args(c)?;
    let t = e.eq(st, &c.args[0], &c.args[1])?;
    ok(Val::Int(if last(c) == "ne" { term::not(t) } else { t }))
}
fn seq_concat(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (p, a, b) = e.slice(st, &c.args[0])?;
    let s = sub_seq(e.seq(st, &p)?, a, b);
    let mut out = SeqV::default();
    for i in 0..s.items.len() {
        let q = match e.deep(st, &s.items[i])? {
            Val::Seq(q) => q,
            _ => return unsup("concat"),
        };
        for j in 0..q.items.len() {
            out.push(term::and(s.guard(i), q.guard(j)), q.items[j].clone())
        }
    }
    ok(Val::Seq(Rc::new(out)))
}
fn windows(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let n = e.n(st, &c.args[1])?;
    let (p, a, b) = e.slice(st, &c.args[0])?;
    let pi = e.present(st, &p, a, b)?;
    let l = pi.len();
    if n == 0 {
        return Err(Ex::Panic("window size 0".into()));
    }
    let mut rs = vec![];
    match last(c).as_str() {
        "windows" => (0..(l + 1).saturating_sub(n)).for_each(|i| rs.push((i, i + n))),
        "chunks" => (0..l).step_by(n).for_each(|i| rs.push((i, (i + n).min(l)))),
        "chunks_exact" => (0..l - l % n).step_by(n).for_each(|i| rs.push((i, i + n))),
        _ => (0..l).step_by(n).for_each(|i| rs.push(((l - i).saturating_sub(n), l - i))),
    }
    ok(Val::iter(rs.into_iter().map(|r| slice_at(&p, phys_range(&pi, a, r.0, r.1))).collect()))
}
fn seq_fill(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (_, a, b) = e.slice(st, &c.args[0])?;
    let x = c.args[1].clone();
    with_seq(e, st, &c.args[0], &mut |s| (a..b).for_each(|i| s.items[i] = x.clone()))?;
    ok(Val::unit())
}
/// rotations and other rearrangements of a plain slice
fn rotate(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let k = e.n(st, &c.args[1])?;
    let (p, a, b) = e.slice(st, &c.args[0])?;
    let pi = e.present(st, &p, a, b)?;
    if k > pi.len() {
        return Err(Ex::Panic("rotate out of range".into()));
    }
    let left = last(c) == "rotate_left";
    with_seq(e, st, &c.args[0], &mut |s| {
        let mut v: Vec<Val> = pi.iter().map(|i| s.items[*i].clone()).collect();
        if left {
            v.rotate_left(k)
        } else {
            v.rotate_right(k)
        }
        for (i, x) in pi.iter().zip(v) {
            s.items[*i] = x;
        }
    })?;
    ok(Val::unit())
}
fn vd_push_front(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let x = c.args[1].clone();
    with_seq(e, st, &c.args[0], &mut |s| {
        s.items.insert(0, x.clone());
        if !s.guards.is_empty() {
            s.guards.insert(0, term::TRUE);
        }
    })?;
    ok(Val::unit())
}
fn vd_pop_front(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (p, mut v) = plain_at(e, st, &c.args[0])?;
    let r = if v.is_empty() { Val::none() } else { Val::some(v.remove(0)) };
    put(st, &p, v)?;
    ok(r)
}
fn slice_from_ref(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    // a one-element copy: shared references only
    let v = e.rd(st, &c.args[0])?;
    st.heap.push(Val::seq(vec![v]));
    let h = st.heap.len() as u32 - 1;
    ok(Val::ptr(Base::Heap(h), vec![], Meta::Slice(0, 1)))
}

// ---------------------------------------------------------------- iterators

fn iter_at(e: &Engine, st: &State, v: &Val) -> R<(Rc<PtrV>, Rc<IterV>)> {
    let p = e.ptr(st, v)?;
    match st.get(&e.lower.consts, p.base, &p.path)? {
        Val::Iter(i) => Ok((p.clone(), i.clone())),
        v => unsup(format!("iterator expected, got {}", kind(v))),
    }
}
fn iter_next(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (p, it) = iter_at(e, st, &c.args[0])?;
    let mut i = it.i;
    while i < it.end {
        let g = it.seq.guard(i);
        match st.decide(g) {
            Ok(true) => {
                let v = it.seq.items[i].clone();
                st.set(p.base, &p.path, Val::Iter(Rc::new(IterV { seq: it.seq.clone(), i: i + 1, end: it.end })))?;
                return ok(Val::some(v));
            }
            Ok(false) => i += 1,
            Err(Ex::Split(_)) => {
                if i != it.i {
                    st.set(p.base, &p.path, Val::Iter(Rc::new(IterV { seq: it.seq.clone(), i, end: it.end })))?;
                }
                return Err(Ex::Skip(p, g, false));
            }
            Err(x) => return Err(x),
        }
    }
    if i != it.i {
        st.set(p.base, &p.path, Val::Iter(Rc::new(IterV { seq: it.seq.clone(), i, end: it.end })))?;
    }
    ok(Val::none())
}
fn iter_next_back(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (p, it) = iter_at(e, st, &c.args[0])?;
    let mut end = it.end;
    while it.i < end {
        let g = it.seq.guard(end - 1);
        match st.decide(g) {
            Ok(true) => {
                let v = it.seq.items[end - 1].clone();
                st.set(p.base, &p.path, Val::Iter(Rc::new(IterV { seq: it.seq.clone(), i: it.i, end: end - 1 })))?;
                return ok(Val::some(v));
            }
            Ok(false) => end -= 1,
            Err(Ex::Split(_)) => {
                if end != it.end {
                    st.set(p.base, &p.path, Val::Iter(Rc::new(IterV { seq: it.seq.clone(), i: it.i, end })))?;
                }
                return Err(Ex::Skip(p, g, true));
            }
            Err(x) => return Err(x),
        }
    }
    ok(Val::none())
}
fn iter_size_hint(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (_, it) = iter_at(e, st, &c.args[0])?;
    let n = Val::Int(it.seq.count(it.i, it.end));
    ok(Val::agg(vec![n.clone(), Val::some(n)]))
}
fn iter_len(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (_, it) = iter_at(e, st, &c.args[0])?;
    ok(Val::Int(it.seq.count(it.i, it.end)))
}
fn iter_count(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let _ = e;
    match st.res(&c.args[0])? {
        Val::Iter(it) => ok(Val::Int(it.seq.count(it.i, it.end))),
        _ => unsup("count"),
    }
}
fn iter_as_slice(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (_, it) = iter_at(e, st, &c.args[0])?;
    let mut items = vec![];
    for i in it.i..it.end {
        if st.decide(it.seq.guard(i))? {
            let v = &it.seq.items[i];
            items.push(if c.name.contains("IntoIter") { v.clone() } else { e.rd(st, v)? });
        }
    }
    let n = items.len() as u32;
    st.heap.push(Val::seq(items));
    let h = st.heap.len() as u32 - 1;
    ok(Val::ptr(Base::Heap(h), vec![], Meta::Slice(0, n)))
}

// ---------------------------------------------------------------- maps and sets

fn new_map(sorted: bool) -> Val {
    Val::Map(Rc::new(MapV { sorted, entries: vec![] }))
}
fn hm_new(_: &mut Engine, _: &mut State, _: &Call) -> NR {
    ok(new_map(false))
}
fn bm_new(_: &mut Engine, _: &mut State, _: &Call) -> NR {
    ok(new_map(true))
}
fn map_at(e: &Engine, st: &State, v: &Val) -> R<(Rc<PtrV>, Rc<MapV>)> {
    let p = e.ptr(st, v)?;
    match st.get(&e.lower.consts, p.base, &p.path)? {
        Val::Map(m) => Ok((p.clone(), m.clone())),
        v => unsup(format!("map expected, got {}", kind(v))),
    }
}
/// candidate entries for a key: (position, presence-and-equality condition)
fn cands(e: &Engine, st: &State, m: &MapV, k: &Val) -> R<Vec<(usize, T)>> {
    let k = e.deep(st, k)?;
    let mut out = vec![];
    for (i, en) in m.entries.iter().enumerate() {
        if en.guard == term::FALSE {
            continue;
        }
        let q = e.eq(st, &en.k, &k)?;
        let c = term::and(q, en.guard);
        match st.known(c) {
            Some(false) => {}
            Some(true) => {
                return Ok(vec![(i, term::TRUE)]);
            }
            None => {
                let s = st.lits.simp(c);
                match term::as_bool(s) {
                    Some(false) => {}
                    Some(true) => return Ok(vec![(i, term::TRUE)]),
                    None => out.push((i, c)),
                }
            }
        }
    }
    Ok(out)
}
/// at most one candidate after forking
fn cand1(e: &Engine, st: &State, m: &MapV, k: &Val) -> R<Option<(usize, T)>> {
    let cs = cands(e, st, m, k)?;
    if cs.len() <= 1 {
        return Ok(cs.first().copied());
    }
    Err(Ex::Split(cs[0].1))
}
/// fully decided
fn cand_dec(e: &Engine, st: &State, m: &MapV, k: &Val) -> R<Option<usize>> {
    match cand1(e, st, m, k)? {
        None => Ok(None),
        Some((i, c)) => Ok(if st.decide(c)? { Some(i) } else { None }),
    }
}
fn vptr(p: &PtrV, id: u32) -> Val {
    let mut path = p.path.clone();
    path.push(Proj::Value(id));
    Val::ptr(p.base, path, Meta::None)
}
fn kptr(p: &PtrV, id: u32) -> Val {
    let mut path = p.path.clone();
    path.push(Proj::Key(id));
    Val::ptr(p.base, path, Meta::None)
}
fn map_get(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    e.plain_eq(e.ty_arg(c, 0))?;
    let (p, m) = map_at(e, st, &c.args[0])?;
    match cand1(e, st, &m, &c.args[1])? {
        None => ok(Val::none()),
        Some((i, g)) => {
            let id = m.entries[i].id;
            let v = match last(c).as_str() {
                "get_key_value" => Val::agg(vec![kptr(&p, id), vptr(&p, id)]),
                _ => vptr(&p, id),
            };
            ok(e.opt(g, v))
        }
    }
}
fn set_get(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (p, m) = map_at(e, st, &c.args[0])?;
    match cand1(e, st, &m, &c.args[1])? {
        None => ok(Val::none()),
        Some((i, g)) => ok(e.opt(g, kptr(&p, m.entries[i].id))),
    }
}
fn map_contains(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (_, m) = map_at(e, st, &c.args[0])?;
    let mut r = term::FALSE;
    for (_, g) in cands(e, st, &m, &c.args[1])? {
        r = term::or(r, g);
    }
    ok(Val::Int(r))
}
fn map_index(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (p, m) = map_at(e, st, &c.args[0])?;
    match cand_dec(e, st, &m, &c.args[1])? {
        None => Err(Ex::Panic("map key not found".into())),
        Some(i) => ok(vptr(&p, m.entries[i].id)),
    }
}
/// position for a new key in a sorted map
fn sorted_pos(e: &Engine, st: &State, kty: crate::Ty, m: &MapV, k: &Val) -> R<usize> {
    if !m.sorted {
        return Ok(m.entries.len());
    }
    for (i, en) in m.entries.iter().enumerate() {
        if en.guard == term::FALSE {
            if st.known(e.lt(st, kty, k, &en.k)?) == Some(true) {
                return Ok(i);
            }
            continue;
        }
        if st.decide(e.lt(st, kty, k, &en.k)?)? {
            return Ok(i);
        }
    }
    Ok(m.entries.len())
}
/// insert; returns (old value option, entry id)
fn do_insert(e: &mut Engine, st: &mut State, kty: crate::Ty, p: &PtrV, m: &MapV, k: &Val, v: Val) -> R<(Val, u32)> {
    e.plain_eq(kty)?;
    let mut m2 = m.clone();
    let cs = cands(e, st, m, k)?;
    // same constant key, maybe present
    if cs.len() == 1 {
        let (i, g) = cs[0];
        let same = e.eq(st, &m.entries[i].k, k)?;
        if st.known(same) == Some(true) {
            let old = e.opt(g, m.entries[i].v.clone());
            m2.entries[i].guard = term::TRUE;
            m2.entries[i].v = v;
            let id = m2.entries[i].id;
            st.set(p.base, &p.path, Val::Map(Rc::new(m2)))?;
            return Ok((old, id));
        }
    }
    if let Some(i) = cand_dec(e, st, m, k)? {
        let old = Val::some(m.entries[i].v.clone());
        m2.entries[i].v = v;
        let id = m2.entries[i].id;
        st.set(p.base, &p.path, Val::Map(Rc::new(m2)))?;
        return Ok((old, id));
    }
    // absent: reuse a dead slot with the same constant key
    let kd = k.clone();
    let pos = sorted_pos(e, st, kty, m, &kd)?;
    let id = e.key_id(&kd);
    if let Some(i) = m2.entries.iter().position(|x| x.id == id) {
        m2.entries[i].guard = term::TRUE;
        m2.entries[i].k = kd;
        m2.entries[i].v = v;
    } else {
        m2.entries.insert(pos, Entry { id, guard: term::TRUE, k: kd, v });
    }
    st.set(p.base, &p.path, Val::Map(Rc::new(m2)))?;
    Ok((Val::none(), id))
}
fn map_insert(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (p, m) = map_at(e, st, &c.args[0])?;
    let (old, _) = do_insert(e, st, e.ty_arg(c, 0), &p, &m, &c.args[1], c.args[2].clone())?;
    ok(old)
}
fn set_insert(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (p, m) = map_at(e, st, &c.args[0])?;
    let (old, _) = do_insert(e, st, e.ty_arg(c, 0), &p, &m, &c.args[1], Val::unit())?;
    match &old {
        Val::Enum(o) => ok(Val::Int(term::eq(o.disc, term::c(32, 0)))),
        _ => unsup("set insert"),
    }
}
fn map_remove(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (p, m) = map_at(e, st, &c.args[0])?;
    let n = canon(c.name);
    match cand1(e, st, &m, &c.args[1])? {
        None => ok(if n.contains("Set") && n.ends_with("remove") { Val::bool(false) } else { Val::none() }),
        Some((i, g)) => {
            let mut m2 = (*m).clone();
            let en = &mut m2.entries[i];
            let old = (en.k.clone(), en.v.clone());
            en.guard = term::and(en.guard, term::not(g));
            if en.guard == term::FALSE {
                m2.entries.remove(i);
            }
            st.set(p.base, &p.path, Val::Map(Rc::new(m2)))?;
            if n.contains("Set") {
                return ok(if n.ends_with("take") { e.opt(g, old.0) } else { Val::Int(g) });
            }
            ok(e.opt(g, if n.ends_with("remove_entry") { Val::agg(vec![old.0, old.1]) } else { old.1 }))
        }
    }
}
fn map_len(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (_, m) = map_at(e, st, &c.args[0])?;
    let g: Vec<T> = m.entries.iter().map(|x| x.guard).collect();
    ok(Val::Int(count(&g)))
}
fn map_is_empty(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (_, m) = map_at(e, st, &c.args[0])?;
    let g: Vec<T> = m.entries.iter().map(|x| term::not(x.guard)).collect();
    ok(Val::Int(term::conj(&g)))
}
fn map_clear(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (p, m) = map_at(e, st, &c.args[0])?;
    st.set(p.base, &p.path, new_map(m.sorted))?;
    ok(Val::unit())
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    if n > 4 {
        let id: Vec<usize> = (0..n).collect();
        let rev: Vec<usize> = (0..n).rev().collect();
        let mut rot = id.clone();
        rot.rotate_left(1);
        let mut rot2 = rev.clone();
        rot2.rotate_left(1);
        return vec![id, rev, rot, rot2];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}
/// iteration order of an unordered collection
fn order(e: &mut Engine, st: &mut State, m: &MapV) -> R<Vec<usize>> {
    let live: Vec<usize> = (0..m.entries.len()).filter(|i| st.known(m.entries[*i].guard) != Some(false)).collect();
    if m.sorted || live.len() < 2 {
        return Ok(live);
    }
    match st.order_mode {
        0 => Ok(live),
        1 => Ok(live.into_iter().rev().collect()),
        m => {
            // 16+k: insertion order, 32+k: reversed, with at most k iterations in any other order; 2: any
            let (base, left) = (m & !15, m & 15);
            let live: Vec<usize> = if base == 32 { live.into_iter().rev().collect() } else { live };
            if base != 0 && left == 0 {
                return Ok(live);
            }
            let ps = perms(live.len());
            let nm = format!("ord!{}", st.order_ctr);
            let v = term::var(8, &nm);
            e.vars.insert(nm, (8, "hash iteration order".into()));
            let dom = term::ult(v, term::c(8, ps.len() as u128));
            match e.feasible(st, dom) {
                Some(mo) => e.assume(st, dom, mo, false),
                None => return Err(Ex::Infeasible),
            }
            for (i, p) in ps.iter().enumerate() {
                if i + 1 == ps.len() || st.decide(term::eq(v, term::c(8, i as u128)))? {
                    st.order_ctr += 1;
                    if base != 0 && p.iter().enumerate().any(|(x, y)| x != *y) {
                        st.order_mode -= 1;
                    }
                    return Ok(p.iter().map(|j| live[*j]).collect());
                }
            }
            unreachable!()
        }
    }
}
fn map_iter(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (p, m) = map_at(e, st, &c.args[0])?;
    let n = canon(c.name);
    let (ty, _, meth) = split_name(&n).unwrap();
    let o = order(e, st, &m)?;
    let mut items = vec![];
    let mut gs = vec![];
    for i in o {
        let id = m.entries[i].id;
        items.push(match meth {
            "keys" => kptr(&p, id),
            "values" | "values_mut" => vptr(&p, id),
            _ if ty.contains("Set") => kptr(&p, id),
            _ => Val::agg(vec![kptr(&p, id), vptr(&p, id)]),
        });
        gs.push(m.entries[i].guard);
    }
    ok(Val::giter(items, gs))
}
fn map_into_iter(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let n = canon(c.name);
    let (ty, _, meth) = split_name(&n).unwrap();
    let (m, drain) = match st.res(&c.args[0])? {
        Val::Map(m) => (m.clone(), None),
        _ => {
            let (p, m) = map_at(e, st, &c.args[0])?;
            (m, Some(p))
        }
    };
    let o = order(e, st, &m)?;
    let mut items = vec![];
    let mut gs = vec![];
    for i in o {
        let en = &m.entries[i];
        items.push(match meth {
            "into_keys" => en.k.clone(),
            "into_values" => en.v.clone(),
            _ if ty.contains("Set") => en.k.clone(),
            _ => Val::agg(vec![en.k.clone(), en.v.clone()]),
        });
        gs.push(en.guard);
    }
    if let Some(p) = drain {
        st.set(p.base, &p.path, new_map(m.sorted))?;
    }
    ok(Val::giter(items, gs))
}
/// intersection / difference / union / symmetric_difference -> iterator of key refs
fn set_op(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (p, m) = map_at(e, st, &c.args[0])?;
    let (q, n) = map_at(e, st, &c.args[1])?;
    let op = last(c);
    let has = |e: &Engine, st: &State, x: &MapV, k: &Val| -> R<T> {
        let mut r = term::FALSE;
        for (_, g) in cands(e, st, x, k)? {
            r = term::or(r, g);
        }
        Ok(r)
    };
    let mut items: Vec<(Val, T, Val)> = vec![];
    let o1 = order(e, st, &m)?;
    for i in o1 {
        let en = &m.entries[i];
        let h = has(e, st, &n, &en.k)?;
        let g = match op.as_str() {
            "intersection" => term::and(en.guard, h),
            "union" => en.guard,
            _ => term::and(en.guard, term::not(h)),
        };
        items.push((kptr(&p, en.id), g, en.k.clone()));
    }
    if op == "union" || op == "symmetric_difference" {
        for i in order(e, st, &n)? {
            let en = &n.entries[i];
            let h = has(e, st, &m, &en.k)?;
            items.push((kptr(&q, en.id), term::and(en.guard, term::not(h)), en.k.clone()));
        }
    }
    if m.sorted {
        let mut out: Vec<(Val, T, Val)> = vec![];
        for x in items {
            let mut j = out.len();
            while j > 0 && st.decide(e.lt(st, e.ty_arg(c, 0), &x.2, &out[j - 1].2)?)? {
                j -= 1
            }
            out.insert(j, x);
        }
        items = out;
    }
    items.retain(|x| x.1 != term::FALSE);
    let (a, b): (Vec<Val>, Vec<T>) = items.into_iter().map(|x| (x.0, x.1)).unzip();
    ok(Val::giter(a, b))
}
fn set_bitop(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (_, m) = map_at(e, st, &c.args[0])?;
    let (_, n) = map_at(e, st, &c.args[1])?;
    let op = last(c);
    let mut out = MapV { sorted: m.sorted, entries: vec![] };
    for en in &m.entries {
        let mut h = term::FALSE;
        for (_, g) in cands(e, st, &n, &en.k)? {
            h = term::or(h, g);
        }
        let g = match op.as_str() {
            "bitand" => term::and(en.guard, h),
            "bitor" => en.guard,
            _ => term::and(en.guard, term::not(h)),
        };
        let mut x = en.clone();
        x.guard = g;
        out.entries.push(x);
    }
    if op == "bitor" {
        for en in &n.entries {
            if m.entries.iter().any(|x| x.id == en.id) {
                let i = out.entries.iter().position(|x| x.id == en.id).unwrap();
                out.entries[i].guard = term::or(out.entries[i].guard, en.guard);
            } else {
                let mut h = term::FALSE;
                for (_, g) in cands(e, st, &out, &en.k)? {
                    h = term::or(h, g);
                }
                let mut en = en.clone();
                en.guard = term::and(en.guard, term::not(h));
                let pos = sorted_pos(e, st, e.ty_arg(c, 0), &out, &en.k)?;
                out.entries.insert(pos, en.clone());
            }
        }
    }
    if op == "bitxor" {
        return unsup("set xor");
    }
    ok(Val::Map(Rc::new(out)))
}
fn set_rel(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (_, m) = map_at(e, st, &c.args[0])?;
    let (_, n) = map_at(e, st, &c.args[1])?;
    let op = last(c);
    let (m, n) = if op == "is_superset" { (n, m) } else { (m, n) };
    let mut v = vec![];
    for en in &m.entries {
        let mut h = term::FALSE;
        for (_, g) in cands(e, st, &n, &en.k)? {
            h = term::or(h, g);
        }
        v.push(term::implies(en.guard, if op == "is_disjoint" { term::not(h) } else { h }));
    }
    ok(Val::Int(term::conj(&v)))
}
// entry API
fn map_entry(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (p, m) = map_at(e, st, &c.args[0])?;
    let bt = canon(c.name).contains("btree");
    let r = cand_dec(e, st, &m, &c.args[1])?;
    let pv = Val::Ptr(p.clone());
    let (o, v) = if bt { (1, 0) } else { (0, 1) };
    ok(match r {
        Some(i) => Val::variant(o, vec![Val::Opaque(Rc::new(Opaque::Tagged("occ", vec![pv, Val::usize(m.entries[i].id as usize)])))]),
        None => Val::variant(v, vec![Val::Opaque(Rc::new(Opaque::Tagged("vac", vec![pv, c.args[1].clone()])))]),
    })
}
fn tagged(e: &Engine, st: &State, v: &Val) -> R<(Rc<PtrV>, Val)> {
    match e.deep_tag(st, v)? {
        Val::Opaque(o) => match &*o {
            Opaque::Tagged(_, xs) => match &xs[0] {
                Val::Ptr(p) => Ok((p.clone(), xs[1].clone())),
                _ => unsup("entry"),
            },
            _ => unsup("entry"),
        },
        v => unsup(format!("entry {}", kind(&v))),
    }
}
fn occ(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (p, id) = tagged(e, st, &c.args[0])?;
    let id = e.n(st, &id)? as u32;
    let Val::Map(m) = st.get(&e.lower.consts, p.base, &p.path)?.clone() else { return unsup("entry map") };
    let i = match m.entries.iter().position(|x| x.id == id) {
        Some(i) => i,
        None => return unsup("stale entry"),
    };
    match last(c).as_str() {
        "get" | "get_mut" | "into_mut" => ok(vptr(&p, id)),
        "key" => ok(kptr(&p, id)),
        "insert" => {
            let old = m.entries[i].v.clone();
            let mut m2 = (*m).clone();
            m2.entries[i].v = c.args[1].clone();
            st.set(p.base, &p.path, Val::Map(Rc::new(m2)))?;
            ok(old)
        }
        "remove" | "remove_entry" => {
            let mut m2 = (*m).clone();
            let en = m2.entries.remove(i);
            st.set(p.base, &p.path, Val::Map(Rc::new(m2)))?;
            ok(if last(c) == "remove" { en.v } else { Val::agg(vec![en.k, en.v]) })
        }
        x => unsup(format!("occupied entry {}", x)),
    }
}
fn vac(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (p, k) = tagged(e, st, &c.args[0])?;
    let Val::Map(m) = st.get(&e.lower.consts, p.base, &p.path)?.clone() else { return unsup("entry map") };
    match last(c).as_str() {
        "insert" | "insert_entry" => {
            let (_, id) = do_insert(e, st, e.ty_arg(c, 0), &p, &m, &k, c.args[1].clone())?;
            ok(vptr(&p, id))
        }
        "into_key" => ok(k),
        x => unsup(format!("vacant entry {}", x)),
    }
}
fn map_edge(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (p, m) = map_at(e, st, &c.args[0])?;
    let n = canon(c.name);
    let op = last(c);
    let set = n.contains("Set");
    let it: Vec<usize> = if op.contains("last") { (0..m.entries.len()).rev().collect() } else { (0..m.entries.len()).collect() };
    for i in it {
        if st.decide(m.entries[i].guard)? {
            let en = m.entries[i].clone();
            if op.starts_with("pop") {
                let mut m2 = (*m).clone();
                m2.entries.remove(i);
                st.set(p.base, &p.path, Val::Map(Rc::new(m2)))?;
                return ok(Val::some(if set { en.k } else { Val::agg(vec![en.k, en.v]) }));
            }
            return ok(Val::some(if set { kptr(&p, en.id) } else { Val::agg(vec![kptr(&p, en.id), vptr(&p, en.id)]) }));
        }
    }
    ok(Val::none())
}
fn map_eq(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    e.plain_args(c)?;
    let t = e.eq(st, &c.args[0], &c.args[1])?;
    ok(Val::Int(if last(c) == "ne" { term::not(t) } else { t }))
}

impl Engine {
    /// like deep but stops at opaque values
    pub fn deep_tag(&self, st: &State, v: &Val) -> R<Val> {
        match st.res(v)? {
            Val::Ptr(p) => {
                let p = p.clone();
                let x = st.get(&self.lower.consts, p.base, &p.path)?.clone();
                self.deep_tag(st, &x)
            }
            x => Ok(x.clone()),
        }
    }
}

fn cmp_seq(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let ty = e.ty_arg(c, 0);
    let (_, a) = plain_at(e, st, &c.args[0])?;
    let (_, b) = plain_at(e, st, &c.args[1])?;
    let n = a.len().min(b.len());
    let (mut l, mut q) = (term::b(a.len() < b.len()), term::b(a.len() == b.len()));
    for i in (0..n).rev() {
        let x = e.lt(st, ty, &a[i], &b[i])?;
        let y = e.eq(st, &a[i], &b[i])?;
        l = term::ite(y, l, x);
        q = term::and(y, q);
    }
    ok(match last(c).as_str() {
        "cmp" => cmp_val(l, q),
        "partial_cmp" => Val::some(cmp_val(l, q)),
        "lt" => Val::Int(l),
        "le" => Val::Int(term::or(l, q)),
        "gt" => Val::Int(term::not(term::or(l, q))),
        _ => Val::Int(term::not(l)),
    })
}
fn plain_order(e: &mut Engine, _: &mut State, c: &Call) -> NR {
    let t = e.ty_arg(c, 0);
    ok(Val::bool(e.plain_ord(t)))
}

pub fn register(m: &mut HashMap<&'static str, NFn>) {
    let mut r = |n: &'static str, f: NFn| {
        m.insert(n, f);
    };
    r("symrt::shims::raw_hm_new", hm_new);
    r("symrt::shims::raw_hs_new", hm_new);
    r("symrt::shims::raw_hm_insert", map_insert);
    r("symrt::shims::raw_hs_insert", set_insert);
    r("symrt::shims::raw_sort_by_keys", sort_by_keys);
    r("symrt::shims::raw_seq_take", seq_take);
    r("symrt::shims::raw_plain_order", plain_order);
    r("symrt::shims::raw_swap", swap);
    r("symrt::shims::raw_into_boxed_slice", into_boxed);
    r("alloc::vec::from_elem", from_elem);
    r("alloc::slice::hack::into_vec", to_seq);
    r("alloc::slice::hack::to_vec", to_vec);
    r("core::slice::raw::from_ref", slice_from_ref);
}

pub fn pattern(name: &str, c: &str) -> Option<NFn> {
    let (ty, tr0, m) = split_name(c)?;
    let tr = tr0.rsplit("::").next().unwrap_or("");
    let base = ty.trim_start_matches('&').trim_start_matches("mut ");
    let by_ref = ty.starts_with('&');
    let t = base.rsplit("::").next().unwrap_or(base);
    let is_vd = base == "alloc::collections::vec_deque::VecDeque";
    let is_vec = base == "alloc::vec::Vec" || is_vd;
    let is_slice = base == "[T]" || base == "[U]" || base == "[A]";
    let is_arr = base.starts_with('[') && base.contains(';');
    let is_seq = is_vec || is_slice || is_arr;
    let std = base.starts_with("std::collections") || base.starts_with("alloc::collections");
    let hm = std && t == "HashMap";
    let hs = std && t == "HashSet";
    let bm = std && t == "BTreeMap";
    let bs = std && t == "BTreeSet";
    let map = hm || bm;
    let set = hs || bs;
    if is_iter_ty(base) && !by_ref {
        return match (tr, m) {
            ("Iterator", "next") => Some(iter_next),
            ("DoubleEndedIterator", "next_back") => Some(iter_next_back),
            ("Iterator", "size_hint") => Some(iter_size_hint),
            ("Iterator", "count") => Some(iter_count),
            ("ExactSizeIterator", "len") => Some(iter_len),
            ("ExactSizeIterator", "is_empty") => None,
            ("Clone", "clone") => Some(clone_fn),
            ("IntoIterator", "into_iter") => Some(id_fn),
            ("", "as_slice") => Some(iter_as_slice),
            _ => None,
        };
    }
    if is_seq {
        let f: NFn = match (tr, m) {
            ("", "new" | "with_capacity") | ("Default", "default") if is_vec => vec_new,
            ("Default", "default") if is_slice || base == "[T; 0]" => vec_new,
            ("", "push") if is_vec => vec_push,
            ("", "pop") if is_vec => vec_pop,
            ("", "insert") if is_vec => vec_insert,
            ("", "remove" | "swap_remove_back" | "swap_remove_front" | "get" | "get_mut") if is_vd => return None,
            ("Index" | "IndexMut", _) if is_vd => return None,
            ("", "remove" | "swap_remove") if is_vec => vec_remove,
            ("", "clear") if is_vec => vec_clear,
            ("", "truncate") if is_vec => vec_truncate,
            ("", "split_off") if is_vec => vec_split_off,
            ("", "append" | "extend_from_slice") if is_vec => vec_append,
            ("", "drain") if is_vec => vec_drain,
            ("", "into_boxed_slice") if is_vec => into_boxed,
            ("", "reserve" | "reserve_exact" | "shrink_to_fit") if is_vec => unit_fn,
            ("", "capacity") => vec_len,
            ("", "len") => vec_len,
            ("", "is_empty") => vec_is_empty,
            ("", "as_slice" | "as_mut_slice" | "as_ref" | "as_mut") => as_slice,
            ("Deref" | "DerefMut" | "AsRef" | "AsMut" | "Borrow" | "BorrowMut", _) => as_slice,
            ("", "to_vec") => to_vec,
            ("ToOwned", "to_owned") if is_slice => to_vec,
            ("", "into_vec") if is_slice => to_seq,
            ("Clone", "clone") => clone_fn,
            ("SpecCloneIntoVec" | "ConvertVec", _) => to_vec,
            ("From", "from") if is_vec => vec_from,
            ("", "first" | "first_mut" | "last" | "last_mut") => edge,
            ("", "split_first" | "split_last" | "split_first_mut" | "split_last_mut") => split_edge,
            ("Index" | "IndexMut", _) => index,
            ("", "get" | "get_mut") => get,
            ("", "iter" | "iter_mut") => seq_iter,
            ("IntoIterator", "into_iter") => {
                if by_ref {
                    seq_iter
                } else {
                    seq_into_iter
                }
            }
            ("", "contains") => seq_contains,
            ("", "reverse") => reverse,
            ("", "swap") => swap,
            ("", "windows" | "chunks" | "chunks_exact" | "rchunks") => windows,
            ("", "split_at" | "split_at_mut" | "split_at_checked") => split_at,
            ("", "fill") => seq_fill,
            ("", "rotate_left" | "rotate_right") => rotate,
            ("", "into_iter_sorted") => return None,
            ("Extend", "extend_one" | "extend_one_unchecked") if is_vec && !name.contains("Extend<&") => vec_push,
            ("Extend", "extend_reserve") => unit_fn,
            ("", "push_back") if is_vd => vec_push,
            ("", "push_front") if is_vd => vd_push_front,
            ("", "pop_back") if is_vd => vec_pop,
            ("", "pop_front") if is_vd => vd_pop_front,
            ("", "front" | "front_mut" | "back" | "back_mut") if is_vd => edge,
            ("", "make_contiguous") if is_vd => as_slice,
            ("PartialEq" | "SlicePartialEq" | "SpecArrayEq", _) => seq_eq,
            ("Ord" | "PartialOrd", "cmp" | "partial_cmp" | "lt" | "le" | "gt" | "ge") => cmp_seq,
            ("Hash", _) => unit_fn,
            _ => return None,
        };
        return Some(f);
    }
    if base == "[S]" || base == "[V]" {
        if tr == "Concat" && !name.contains("Concat<str>") {
            return Some(seq_concat);
        }
        return None;
    }
    if t == "[T]" {
        return None;
    }
    if map || set {
        let f: NFn = match (tr, m) {
            ("", "new" | "with_capacity" | "with_hasher" | "with_capacity_and_hasher" | "new_in") | ("Default", "default") => {
                if hm || hs {
                    hm_new
                } else {
                    bm_new
                }
            }
            ("", "get" | "get_mut" | "get_key_value") if map => map_get,
            ("", "get") if set => set_get,
            ("", "contains_key" | "contains") => map_contains,
            ("", "insert") if map => map_insert,
            ("", "insert" | "replace") if set => set_insert,
            ("", "remove" | "remove_entry" | "take") => map_remove,
            ("", "len") => map_len,
            ("", "is_empty") => map_is_empty,
            ("", "clear") => map_clear,
            ("", "reserve" | "shrink_to_fit") => unit_fn,
            ("", "iter" | "iter_mut" | "keys" | "values" | "values_mut") => map_iter,
            ("IntoIterator", "into_iter") => {
                if by_ref {
                    map_iter
                } else {
                    map_into_iter
                }
            }
            ("", "into_keys" | "into_values" | "drain") => map_into_iter,
            ("", "entry") => map_entry,
            ("", "intersection" | "difference" | "union" | "symmetric_difference") if set => set_op,
            ("BitAnd" | "BitOr" | "Sub" | "BitXor", _) => set_bitop,
            ("", "is_subset" | "is_superset" | "is_disjoint") => set_rel,
            ("", "first_key_value" | "last_key_value" | "pop_first" | "pop_last" | "first" | "last") => map_edge,
            ("Clone", "clone") => clone_fn,
            ("PartialEq", _) => map_eq,
            ("Index", "index") => map_index,
            ("Hash", _) => unit_fn,
            _ => return None,
        };
        return Some(f);
    }
    if c.contains("::hash::map::OccupiedEntry") || c.contains("btree::map::entry::OccupiedEntry") {
        if tr.is_empty() {
            return Some(occ);
        }
    }
    if c.contains("::hash::map::VacantEntry") || c.contains("btree::map::entry::VacantEntry") {
        if tr.is_empty() {
            return Some(vac);
        }
    }
    if tr == "BuildHasher" || t == "RandomState" || t == "DefaultHasher" {
        return Some(unit_fn);
    }
    None
}

pub fn is_iter_ty(t: &str) -> bool {
    const P: [&str; 16] = [
        "regex::regex::string::",
        "core::slice::iter::",
        "alloc::vec::into_iter::",
        "alloc::vec::drain::",
        "alloc::collections::vec_deque::",
        "core::array::iter::",
        "std::collections::hash::map::",
        "std::collections::hash::set::",
        "alloc::collections::btree::map::",
        "alloc::collections::btree::set::",
        "core::str::iter::",
        "core::char::",
        "alloc::string::",
        "core::slice::Iter",
        "alloc::vec::IntoIter",
        "core::str::Chars",
    ];
    if !P.iter().any(|p| t.starts_with(p)) {
        return false;
    }
    let s = t.rsplit("::").next().unwrap();
    matches!(
        s,
        "Iter" | "IterMut" | "IntoIter" | "Drain" | "Keys" | "Values" | "ValuesMut" | "IntoKeys" | "IntoValues" | "Intersection"
            | "Difference" | "Union" | "SymmetricDifference" | "Chars" | "CharIndices" | "Bytes" | "Split" | "RSplit" | "SplitN"
            | "RSplitN" | "SplitTerminator" | "SplitWhitespace" | "SplitAsciiWhitespace" | "Lines" | "Windows" | "Chunks" | "ChunksExact" | "RChunks" | "ChunkBy" | "SplitInclusive"
            | "Matches" | "MatchIndices" | "RMatches" | "RMatchIndices" | "CaptureMatches" | "SubCaptureMatches" | "Splice" | "ToLowercase"
            | "ToUppercase" | "Range"
    )
}

/// base iterators: everything but the primitives goes through the trait's provided method
pub fn iter_impl(c: &str) -> Option<(&'static str, String)> {
    let (ty, tr, m) = split_name(c)?;
    if !is_iter_ty(ty) {
        return None;
    }
    let tr = match tr.rsplit("::").next().unwrap_or("") {
        "Iterator" => "Iterator",
        "DoubleEndedIterator" => "DoubleEndedIterator",
        "ExactSizeIterator" => "ExactSizeIterator",
        _ => return None,
    };
    Some((tr, m.to_string()))
}

pub fn redirects() -> HashMap<&'static str, (&'static str, usize)> {
    let mut m: HashMap<&'static str, (&'static str, usize)> = HashMap::new();
    let it = "core::iter::traits::collect::";
    let mut r = |a: String, b: &'static str| {
        m.insert(Box::leak(a.into_boxed_str()), (b, 0));
    };
    let fi = format!("{}FromIterator", it);
    let ex = format!("{}Extend", it);
    r(format!("<alloc::vec::Vec as {}>::from_iter", fi), "vec_from_iter");
    r(format!("<alloc::boxed::Box as {}>::from_iter", fi), "box_slice_from_iter");
    r(format!("<std::collections::hash::map::HashMap as {}>::from_iter", fi), "hm_from_iter");
    r(format!("<std::collections::hash::set::HashSet as {}>::from_iter", fi), "hs_from_iter");
    r(format!("<alloc::collections::btree::map::BTreeMap as {}>::from_iter", fi), "bm_from_iter");
    r(format!("<alloc::collections::btree::set::BTreeSet as {}>::from_iter", fi), "bs_from_iter");
    r(format!("<std::collections::hash::map::HashMap as {}>::extend", ex), "hm_extend");
    r(format!("<std::collections::hash::set::HashSet as {}>::extend", ex), "hs_extend");
    r(format!("<alloc::collections::btree::map::BTreeMap as {}>::extend", ex), "bm_extend");
    r(format!("<alloc::collections::btree::set::BTreeSet as {}>::extend", ex), "bs_extend");
    // keyed on full names (several impls share a canonical name)
    r(format!("<alloc::vec::Vec<T, A> as {}<T>>::extend", ex), "vec_extend");
    r(format!("<alloc::vec::Vec<T, A> as {}<&'a T>>::extend", ex), "vec_extend_ref");
    for (p, f, x) in [
        ("char", "str_from_chars", "str_extend_chars"),
        ("&'a char", "str_from_char_refs", ""),
        ("&'a str", "str_from_strs", "str_extend_strs"),
        ("alloc::string::String", "str_from_strings", "str_extend_strings"),
    ] {
        r(format!("<alloc::string::String as {}<{}>>::from_iter", fi, p), f);
        if !x.is_empty() {
            r(format!("<alloc::string::String as {}<{}>>::extend", ex, p), x);
        }
    }
    r(format!("<alloc::collections::vec_deque::VecDeque as {}>::from_iter", fi), "vec_from_iter");
    r(format!("<alloc::collections::vec_deque::VecDeque<T, A> as {}<T>>::extend", ex), "vec_extend");
    r(format!("<std::collections::hash::map::HashMap<K, V, S> as {}<(K, V)>>::extend_one", ex), "hm_extend_one");
    r(format!("<std::collections::hash::map::HashMap<K, V, S, A> as {}<(K, V)>>::extend_one", ex), "hm_extend_one");
    for (a, b) in [
        ("alloc::slice::<impl [T]>::sort", "sort"),
        ("alloc::slice::<impl [T]>::sort_by", "sort_by"),
        ("alloc::slice::<impl [T]>::sort_by_key", "sort_by_key"),
        ("alloc::slice::<impl [T]>::sort_by_cached_key", "sort_by_key"),
        ("core::slice::<impl [T]>::sort_unstable", "sort"),
        ("core::slice::<impl [T]>::sort_unstable_by", "sort_by"),
        ("core::slice::<impl [T]>::sort_unstable_by_key", "sort_by_key"),
        ("alloc::vec::Vec::retain", "vec_retain"),
        ("alloc::vec::Vec::retain_mut", "vec_retain_mut"),
        ("alloc::vec::Vec::dedup", "vec_dedup"),
        ("alloc::vec::Vec::dedup_by_key", "vec_dedup_by_key"),
        ("alloc::vec::Vec::dedup_by", "vec_dedup_by"),
        ("alloc::vec::Vec::resize", "vec_resize"),
        ("alloc::vec::Vec::extend_with", "vec_extend_with"),
        ("alloc::vec::Vec::resize_with", "vec_resize_with"),
        ("alloc::vec::Vec::splice", "vec_splice"),
        ("alloc::vec::Vec::extend_from_within", "vec_extend_from_within"),
        ("core::slice::<impl [T]>::binary_search_by", "slice_binary_search_by"),
        ("core::slice::<impl [T]>::partition_point", "slice_partition_point"),
        ("core::slice::<impl [T]>::chunk_by", "slice_chunk_by"),
        ("core::slice::<impl [T]>::split", "slice_split"),
        ("core::array::from_fn", "array_from_fn"),
        ("std::collections::hash::map::HashMap::retain", "hm_retain"),
        ("std::collections::hash::set::HashSet::retain", "hs_retain"),
        ("alloc::collections::btree::map::BTreeMap::retain", "bm_retain"),
        ("core::array::<impl [T; N]>::map", "array_map"),
    ] {
        r(a.to_string(), b);
    }
    m
}
#[allow(dead_code)]
fn unused(t: crate::Ty) -> bool {
    matches!(t.kind(), TyKind::Never)
}
