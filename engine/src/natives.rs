//! Models of standard-library functions over structural values.
use crate::exec::*;
use crate::lower::*;
use crate::term::{self, T};
use crate::val::*;
use crate::{Inst, Ty};
use rustc_middle::ty::TyKind;
use std::collections::HashMap;
use std::rc::Rc;

pub struct Call<'a> {
    pub inst: Inst,
    pub name: &'a str,
    pub args: &'a [Val],
}
pub type NFn = fn(&mut Engine, &mut State, &Call) -> R<Nat>;
pub type NR = R<Nat>;

pub fn ok(v: Val) -> NR {
    Ok(Nat::Val(v))
}

/// strip generic arguments and lifetimes from a def path
pub fn canon(s: &str) -> String {
    let b: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == '\'' {
            let mut j = i + 1;
            while j < b.len() && (b[j].is_alphanumeric() || b[j] == '_') {
                j += 1;
            }
            if j < b.len() && b[j] == ' ' {
                j += 1;
            }
            i = j;
            continue;
        }
        if c == '<' {
            let prev = out.chars().last();
            let is_impl = b[i..].iter().take(6).collect::<String>() == "<impl ";
            let generic = match prev {
                Some(p) => (p.is_alphanumeric() || p == '_' || out.ends_with("::")) && !is_impl,
                None => false,
            };
            if generic {
                let mut d = 0;
                let mut j = i;
                while j < b.len() {
                    if b[j] == '<' {
                        d += 1
                    }
                    if b[j] == '>' && (j == 0 || b[j - 1] != '-') {
                        d -= 1;
                        if d == 0 {
                            break;
                        }
                    }
                    j += 1;
                }
                if out.ends_with("::") {
                    out.pop();
                    out.pop();
                }
                i = j + 1;
                continue;
            }
        }
        out.push(c);
        i += 1;
    }
    out
}

pub fn unit_fn(_: &mut Engine, _: &mut State, _: &Call) -> NR {
    ok(Val::unit())
}
/// clone(&self): structural copy
pub fn clone_fn(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let v = e.rd(st, &c.args[0])?;
    ok(v)
}
/// identity on the first argument
pub fn id_fn(_: &mut Engine, _: &mut State, c: &Call) -> NR {
    ok(c.args[0].clone())
}
pub fn panic_fn(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let mut m = c.name.to_string();
    for a in c.args {
        if let Val::Str(S::Const(s)) = a {
            m = format!("{}: {}", m, s);
        }
    }
    let _ = (e, st);
    Err(Ex::Panic(m))
}

impl Engine {
    /// dereference a pointer argument (Str and others stand for themselves)
    pub fn rd(&self, st: &State, v: &Val) -> R<Val> {
        match st.res(v)? {
            Val::Ptr(p) => Ok(st.get(&self.lower.consts, p.base, &p.path)?.clone()),
            x => Ok(x.clone()),
        }
    }
    pub fn ptr(&self, st: &State, v: &Val) -> R<Rc<PtrV>> {
        match st.res(v)? {
            Val::Ptr(p) => {
                // collapse pointer-to-pointer
                match st.get(&self.lower.consts, p.base, &p.path)? {
                    Val::Ptr(q) => Ok(q.clone()),
                    _ => Ok(p.clone()),
                }
            }
            v => unsup(format!("pointer expected, got {}", kind(v))),
        }
    }
    pub fn wr(&self, st: &mut State, p: &PtrV, v: Val) -> R<()> {
        st.set(p.base, &p.path, v)
    }
    /// value behind any number of pointers
    pub fn deep(&self, st: &State, v: &Val) -> R<Val> {
        let mut v = st.res(v)?.clone();
        for _ in 0..8 {
            match &v {
                Val::Ptr(p) => v = st.get(&self.lower.consts, p.base, &p.path)?.clone(),
                Val::Box(b, _) => v = st.res(b)?.clone(),
                _ => return Ok(v),
            }
        }
        Ok(v)
    }
    pub fn s(&self, st: &State, v: &Val) -> R<S> {
        match v {
            Val::Ite(c, a, b) => {
                // keep string choices symbolic where both sides are readable
                if st.known(*c).is_none() {
                    if let (Ok(x), Ok(y)) = (self.s(st, a), self.s(st, b)) {
                        return Ok(S::ite(*c, x, y));
                    }
                }
                let v = st.res(v)?.clone();
                self.s(st, &v)
            }
            Val::Str(s) => Ok(s.clone()),
            Val::Ptr(p) => {
                let v = st.get(&self.lower.consts, p.base, &p.path)?.clone();
                self.s(st, &v)
            }
            Val::Box(b, _) => self.s(st, b),
            Val::Enum(e) => {
                // Cow<str>
                if let Some(d) = term::as_const(e.disc) {
                    if let Some((_, p)) = e.pays.iter().find(|p| p.0 as u128 == d) {
                        return self.s(st, &p[0]);
                    }
                }
                // undecided: a choice over the variants
                let mut r: Option<S> = None;
                for p in e.pays.iter() {
                    if p.1.is_empty() {
                        return unsup("string from enum");
                    }
                    let x = self.s(st, &p.1[0])?;
                    let w = term::width(e.disc);
                    r = Some(match r {
                        None => x,
                        Some(y) => S::ite(term::eq(e.disc, term::c(w, p.0 as u128)), x, y),
                    });
                }
                match r {
                    Some(s) => Ok(s),
                    None => unsup("string from enum"),
                }
            }
            Val::Seq(q) => {
                // byte sequence
                let mut out = String::new();
                for x in &q.items {
                    match x {
                        Val::Int(t) => match term::as_const(*t) {
                            Some(b) if b < 128 => out.push(b as u8 as char),
                            _ => return unsup("string from bytes"),
                        },
                        _ => return unsup("string from seq"),
                    }
                }
                Ok(S::lit(&out))
            }
            Val::Agg(f) if f.len() == 1 => self.s(st, &f[0]),
            v => unsup(format!("string expected, got {}", kind(v))),
        }
    }
    /// resolve ites at the top of a string
    pub fn leaf(&self, st: &State, s: &S) -> R<S> {
        let mut s = s.clone();
        loop {
            let n = match &s {
                S::Ite(c, a, b) => {
                    if st.decide(*c)? {
                        (**a).clone()
                    } else {
                        (**b).clone()
                    }
                }
                _ => return Ok(s),
            };
            s = n;
        }
    }
    pub fn i(&self, st: &State, v: &Val) -> R<T> {
        match st.res(v)? {
            Val::Int(t) => Ok(*t),
            Val::Ptr(p) => match st.get(&self.lower.consts, p.base, &p.path)? {
                Val::Int(t) => Ok(*t),
                v => unsup(format!("int expected, got {}", kind(v))),
            },
            v => unsup(format!("int expected, got {}", kind(v))),
        }
    }
    pub fn n(&self, st: &State, v: &Val) -> R<usize> {
        let t = self.i(st, v)?;
        Ok(self.concretize(st, t)? as usize)
    }
    /// (pointer to Seq, slice bounds) for &[T], &Vec<T>, &mut Vec<T>, &[T;N], &Box<[T]>
    pub fn slice(&self, st: &State, v: &Val) -> R<(Rc<PtrV>, usize, usize)> {
        let mut p = match st.res(v)? {
            Val::Ptr(p) => p.clone(),
            v => return unsup(format!("slice expected, got {}", kind(v))),
        };
        for _ in 0..8 {
            match st.get(&self.lower.consts, p.base, &p.path)? {
                Val::Ptr(q) => p = q.clone(),
                Val::Box(..) => {
                    let mut q = (*p).clone();
                    q.path.push(Proj::Content);
                    p = Rc::new(q);
                }
                Val::Seq(s) => {
                    return Ok(match p.meta {
                        Meta::Slice(a, l) => (p.clone(), a as usize, (a + l) as usize),
                        _ => {
                            let n = s.items.len();
                            (p.clone(), 0, n)
                        }
                    })
                }
                v => return unsup(format!("slice over {}", kind(v))),
            }
        }
        unsup("slice depth")
    }
    pub fn seq<'a>(&'a self, st: &'a State, p: &PtrV) -> R<&'a Rc<SeqV>> {
        match st.get(&self.lower.consts, p.base, &p.path)? {
            Val::Seq(s) => Ok(s),
            v => unsup(format!("seq expected, got {}", kind(v))),
        }
    }
    pub fn elem_ptr(&self, p: &PtrV, i: usize) -> Val {
        let mut path = p.path.clone();
        path.push(Proj::Index(i as u32));
        Val::ptr(p.base, path, Meta::None)
    }
    /// physical positions of present elements; forks on undecided guards
    pub fn present(&self, st: &State, p: &PtrV, a: usize, b: usize) -> R<Vec<usize>> {
        let s = self.seq(st, p)?;
        let mut out = vec![];
        for i in a..b {
            if st.decide(s.guard(i))? {
                out.push(i)
            }
        }
        Ok(out)
    }
    /// all elements of an owned sequence, with guards decided
    pub fn plain(&self, st: &State, s: &SeqV) -> R<Vec<Val>> {
        let mut out = vec![];
        for i in 0..s.items.len() {
            if st.decide(s.guard(i))? {
                out.push(s.items[i].clone())
            }
        }
        Ok(out)
    }
    pub fn own_seq(&self, st: &State, v: &Val) -> R<Rc<SeqV>> {
        match st.res(v)? {
            Val::Seq(s) => Ok(s.clone()),
            Val::Box(b, _) => self.own_seq(st, b),
            // MaybeUninit / ManuallyDrop wrappers
            Val::Agg(f) => match f.iter().find(|x| !matches!(x, Val::Undef)) {
                Some(x) => self.own_seq(st, x),
                None => unsup("owned seq expected, got empty wrapper"),
            },
            v => unsup(format!("owned seq expected, got {}", kind(v))),
        }
    }
    pub fn shim(&self, name: &str, args: &[rustc_middle::ty::GenericArg<'static>]) -> R<Inst> {
        let tcx = self.lower.tcx;
        let did = match self.shims.get(name) {
            Some(d) => *d,
            None => return unsup(format!("missing shim {}", name)),
        };
        let g = tcx.generics_of(did);
        let mut it = args.iter().filter(|a| a.as_region().is_none());
        let mut full = vec![];
        for i in 0..g.count() {
            if matches!(g.param_at(i, tcx).kind, rustc_middle::ty::GenericParamDefKind::Lifetime) {
                full.push(tcx.lifetimes.re_erased.into());
            } else {
                match it.next() {
                    Some(a) => full.push(*a),
                    None => return unsup("shim arity"),
                }
            }
        }
        match self.lower.resolve(did, tcx.mk_args(&full)) {
            Some(i) => Ok(i),
            None => unsup("shim resolve"),
        }
    }

    /// structural equality
    pub fn eq(&self, st: &State, a: &Val, b: &Val) -> R<T> {
        match (a, b) {
            (Val::Int(x), Val::Int(y)) => return Ok(term::eq(*x, *y)),
            (Val::Str(x), Val::Str(y)) => return Ok(x.eq(y)),
            _ => {}
        }
        let a = st.res(a)?;
        let b = st.res(b)?;
        match (a, b) {
            (Val::Ptr(p), Val::Ptr(q)) => {
                if p == q && !matches!(p.meta, Meta::Slice(..)) {
                    return Ok(term::TRUE);
                }
                let x = st.get(&self.lower.consts, p.base, &p.path)?;
                let y = st.get(&self.lower.consts, q.base, &q.path)?;
                if let (Val::Seq(s), Val::Seq(t)) = (x, y) {
                    let rg = |m: Meta, s: &SeqV| match m {
                        Meta::Slice(a, l) => (a as usize, (a + l) as usize),
                        _ => (0, s.items.len()),
                    };
                    let (a0, a1) = rg(p.meta, s);
                    let (b0, b1) = rg(q.meta, t);
                    return self.eq_seq(st, s, a0, a1, t, b0, b1);
                }
                self.eq(st, x, y)
            }
            (Val::Ptr(p), o) | (o, Val::Ptr(p)) => {
                let x = st.get(&self.lower.consts, p.base, &p.path)?;
                if let (Meta::Slice(a, l), Val::Seq(s)) = (p.meta, x) {
                    let t = self.own_seq(st, o)?;
                    return self.eq_seq(st, s, a as usize, (a + l) as usize, &t, 0, t.items.len());
                }
                self.eq(st, x, o)
            }
            (Val::Int(x), Val::Int(y)) => Ok(term::eq(*x, *y)),
            (Val::Str(x), Val::Str(y)) => Ok(x.eq(y)),
            (Val::Agg(x), Val::Agg(y)) if Rc::ptr_eq(x, y) => Ok(term::TRUE),
            (Val::Enum(x), Val::Enum(y)) if Rc::ptr_eq(x, y) => Ok(term::TRUE),
            (Val::Seq(x), Val::Seq(y)) if Rc::ptr_eq(x, y) => Ok(term::TRUE),
            (Val::Map(x), Val::Map(y)) if Rc::ptr_eq(x, y) => Ok(term::TRUE),
            (Val::Agg(x), Val::Agg(y)) => {
                let mut v = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    v.push(self.eq(st, p, q)?);
                }
                Ok(term::conj(&v))
            }
            (Val::Box(x, _), Val::Box(y, _)) => self.eq(st, x, y),
            (Val::Box(x, _), y) => self.eq(st, x, y),
            (x, Val::Box(y, _)) => self.eq(st, x, y),
            (Val::Enum(x), Val::Enum(y)) => {
                let mut v = vec![term::eq(x.disc, y.disc)];
                if v[0] == term::FALSE {
                    return Ok(term::FALSE);
                }
                for (k, p) in &x.pays {
                    let here = term::eq(x.disc, term::c(32, *k as u128));
                    if st.known(here) == Some(false) {
                        continue;
                    }
                    if let Some((_, q)) = y.pays.iter().find(|q| q.0 == *k) {
                        let there = term::eq(y.disc, term::c(32, *k as u128));
                        if st.known(there) == Some(false) {
                            continue;
                        }
                        let mut w = vec![];
                        for (a, b) in p.iter().zip(q.iter()) {
                            w.push(self.eq(st, a, b)?);
                        }
                        v.push(term::implies(here, term::conj(&w)));
                    }
                }
                Ok(term::conj(&v))
            }
            (Val::Seq(s), Val::Seq(t)) => self.eq_seq(st, s, 0, s.items.len(), t, 0, t.items.len()),
            (Val::Map(m), Val::Map(n)) => {
                // every present entry of one has an equal counterpart in the other
                let mut v = vec![];
                let mut used = vec![false; n.entries.len()];
                for e in &m.entries {
                    match n.entries.iter().position(|f| f.id == e.id) {
                        Some(j) => {
                            used[j] = true;
                            let f = &n.entries[j];
                            v.push(term::iff(e.guard, f.guard));
                            if term::and(e.guard, f.guard) != term::FALSE {
                                v.push(term::implies(e.guard, self.eq(st, &e.v, &f.v)?));
                            }
                        }
                        None => {
                            let mut any = term::FALSE;
                            for (j, f) in n.entries.iter().enumerate() {
                                let k = self.eq(st, &e.k, &f.k)?;
                                if k != term::FALSE {
                                    used[j] = true;
                                    let ve = self.eq(st, &e.v, &f.v)?;
                                    any = term::or(any, term::conj(&[k, f.guard, ve]));
                                }
                            }
                            v.push(term::implies(e.guard, any));
                        }
                    }
                }
                for (j, f) in n.entries.iter().enumerate() {
                    if m.entries.iter().any(|e| e.id == f.id) {
                        continue;
                    }
                    let _ = used[j];
                    let mut any = term::FALSE;
                    for e in &m.entries {
                        let k = self.eq(st, &e.k, &f.k)?;
                        any = term::or(any, term::and(k, e.guard));
                    }
                    v.push(term::implies(f.guard, any));
                }
                Ok(term::conj(&v))
            }
            (x, y) => unsup(format!("equality of {} and {}", kind(x), kind(y))),
        }
    }
    fn eq_seq(&self, st: &State, s: &SeqV, a0: usize, a1: usize, t: &SeqV, b0: usize, b1: usize) -> R<T> {
        if s.guards.is_empty() && t.guards.is_empty() {
            if a1 - a0 != b1 - b0 {
                return Ok(term::FALSE);
            }
            let mut v = vec![];
            for i in 0..a1 - a0 {
                let r = self.eq(st, &s.items[a0 + i], &t.items[b0 + i])?;
                if r == term::FALSE {
                    return Ok(r);
                }
                v.push(r);
            }
            return Ok(term::conj(&v));
        }
        if a1 - a0 == b1 - b0 && (0..a1 - a0).all(|i| s.guard(a0 + i) == t.guard(b0 + i)) {
            let mut v = vec![];
            for i in 0..a1 - a0 {
                let r = self.eq(st, &s.items[a0 + i], &t.items[b0 + i])?;
                v.push(term::implies(s.guard(a0 + i), r));
            }
            return Ok(term::conj(&v));
        }
        let mut x = vec![];
        for i in a0..a1 {
            if st.decide(s.guard(i))? {
                x.push(&s.items[i])
            }
        }
        let mut y = vec![];
        for i in b0..b1 {
            if st.decide(t.guard(i))? {
                y.push(&t.items[i])
            }
        }
        if x.len() != y.len() {
            return Ok(term::FALSE);
        }
        let mut v = vec![];
        for (p, q) in x.iter().zip(&y) {
            v.push(self.eq(st, p, q)?);
        }
        Ok(term::conj(&v))
    }
    /// the impl of `trait_did`'s method for `ty` was written by `#[derive]`
    fn derived(&self, trait_did: Option<rustc_hir::def_id::DefId>, m: &str, args: &[rustc_middle::ty::GenericArg<'static>]) -> bool {
        let tcx = self.lower.tcx;
        let Some(tr) = trait_did else { return false };
        let Some(item) = tcx.associated_items(tr).in_definition_order().find(|i| i.name().as_str() == m).map(|i| i.def_id) else { return false };
        let Some(i) = self.lower.resolve(item, tcx.mk_args(args)) else { return false };
        match tcx.impl_of_assoc(i.def_id()) {
            Some(imp) => tcx.is_automatically_derived(imp),
            None => false,
        }
    }
    fn trusted_crate(&self, did: rustc_hir::def_id::DefId) -> bool {
        let n = self.lower.tcx.crate_name(did.krate);
        matches!(n.as_str(), "core" | "alloc" | "std" | "serde_json" | "indexmap" | "hashbrown")
    }
    /// equality of `ty` is structural
    pub fn plain_eq(&self, ty: Ty) -> R<()> {
        if let Some(b) = self.eq_ok.borrow().get(&ty) {
            return if *b { Ok(()) } else { unsup(format!("custom equality of {}", ty)) };
        }
        self.eq_ok.borrow_mut().insert(ty, true);
        let tcx = self.lower.tcx;
        let r = match ty.kind() {
            TyKind::Ref(_, t, _) | TyKind::Slice(t) | TyKind::Array(t, _) => self.plain_eq(*t),
            TyKind::Tuple(ts) => ts.iter().try_for_each(|t| self.plain_eq(t)),
            TyKind::Adt(d, args) if self.trusted_crate(d.did()) => args.types().try_for_each(|t| self.plain_eq(t)),
            TyKind::Adt(d, args) => {
                if !self.derived(tcx.lang_items().eq_trait(), "eq", &[ty.into(), ty.into()]) {
                    unsup(format!("custom equality of {}", ty))
                } else {
                    d.all_fields().try_for_each(|f| {
                        let t = tcx.normalize_erasing_regions(env(), f.ty(tcx, args));
                        self.plain_eq(t)
                    })
                }
            }
            _ => Ok(()),
        };
        if r.is_err() {
            self.eq_ok.borrow_mut().insert(ty, false);
        }
        r
    }
    pub fn plain_args(&self, c: &Call) -> R<()> {
        c.inst.args.types().try_for_each(|t| self.plain_eq(t))
    }
    fn lt_fields(&self, st: &State, tys: &[Ty], x: &[Val], y: &[Val], then: T) -> R<T> {
        let mut r = then;
        for i in (0..x.len().min(y.len())).rev() {
            let e = self.eq(st, &x[i], &y[i])?;
            let l = self.lt(st, tys[i.min(tys.len() - 1)], &x[i], &y[i])?;
            r = term::ite(e, r, l);
        }
        Ok(r)
    }
    /// strict order of two values of type `ty`
    pub fn lt(&self, st: &State, ty: Ty, a: &Val, b: &Val) -> R<T> {
        let tcx = self.lower.tcx;
        match ty.kind() {
            TyKind::Ref(_, t, _) => return self.lt(st, *t, a, b),
            TyKind::Adt(d, args) if d.is_box() => return self.lt(st, args.type_at(0), a, b),
            _ => {}
        }
        let a = self.deep(st, a)?;
        let b = self.deep(st, b)?;
        match (ty.kind(), &a, &b) {
            (_, Val::Str(x), Val::Str(y)) => return Ok(x.lt(y)),
            (TyKind::Bool, Val::Int(x), Val::Int(y)) => return Ok(term::and(term::not(*x), *y)),
            (TyKind::Int(_), Val::Int(x), Val::Int(y)) => return Ok(term::slt(*x, *y)),
            (TyKind::Char | TyKind::Uint(_), Val::Int(x), Val::Int(y)) => return Ok(term::ult(*x, *y)),
            (TyKind::Tuple(ts), Val::Agg(x), Val::Agg(y)) => {
                let ts: Vec<Ty> = ts.iter().collect();
                return if ts.is_empty() { Ok(term::FALSE) } else { self.lt_fields(st, &ts, x, y, term::FALSE) };
            }
            (TyKind::Slice(t) | TyKind::Array(t, _), Val::Seq(x), Val::Seq(y)) => {
                let (x, y) = (self.plain(st, x)?, self.plain(st, y)?);
                return self.lt_fields(st, &[*t], &x, &y, term::b(x.len() < y.len()));
            }
            (TyKind::Adt(d, args), _, _) => {
                let p = self.lower.path(d.did());
                match (p.as_str(), &a, &b) {
                    ("alloc::vec::Vec", Val::Seq(x), Val::Seq(y)) => {
                        let (x, y) = (self.plain(st, x)?, self.plain(st, y)?);
                        return self.lt_fields(st, &[args.type_at(0)], &x, &y, term::b(x.len() < y.len()));
                    }
                    ("core::cmp::Reverse", Val::Agg(x), Val::Agg(y)) => return self.lt(st, args.type_at(0), &y[0], &x[0]),
                    _ => {}
                }
                let std_enum = matches!(p.as_str(), "core::option::Option" | "core::result::Result" | "core::cmp::Ordering");
                if !std_enum && !self.derived(tcx.get_diagnostic_item(rustc_span::sym::Ord), "cmp", &[ty.into()]) {
                    return unsup(format!("custom order of {}", ty));
                }
                let ft = |v: usize| -> Vec<Ty> {
                    d.variants()[rustc_abi::VariantIdx::from_usize(v)]
                        .fields
                        .iter()
                        .map(|f| tcx.normalize_erasing_regions(env(), f.ty(tcx, args)))
                        .collect()
                };
                match (&a, &b) {
                    (Val::Agg(x), Val::Agg(y)) => {
                        let ts = ft(0);
                        return if ts.is_empty() { Ok(term::FALSE) } else { self.lt_fields(st, &ts, x, y, term::FALSE) };
                    }
                    (Val::Enum(x), Val::Enum(y)) => {
                        let mut r = term::ult(x.disc, y.disc);
                        for (k, p) in &x.pays {
                            let k32 = term::c(32, *k as u128);
                            let both = term::and(term::eq(x.disc, k32), term::eq(y.disc, k32));
                            if p.is_empty() || st.known(both) == Some(false) {
                                continue;
                            }
                            if let Some((_, q)) = y.pays.iter().find(|q| q.0 == *k) {
                                let l = self.lt_fields(st, &ft(*k as usize), p, q, term::FALSE)?;
                                r = term::ite(both, l, r);
                            }
                        }
                        return Ok(r);
                    }
                    _ => {}
                }
            }
            _ => {}
        }
        unsup(format!("order of {} ({}, {})", ty, kind(&a), kind(&b)))
    }
    /// `lt` covers the order of `ty`
    pub fn plain_ord(&self, ty: Ty) -> bool {
        let tcx = self.lower.tcx;
        match ty.kind() {
            TyKind::Ref(_, t, _) | TyKind::Slice(t) | TyKind::Array(t, _) => self.plain_ord(*t),
            TyKind::Tuple(ts) => ts.iter().all(|t| self.plain_ord(t)),
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Str => true,
            TyKind::Adt(d, args) => {
                let p = self.lower.path(d.did());
                if d.is_box() {
                    return self.plain_ord(args.type_at(0));
                }
                match p.as_str() {
                    "alloc::string::String" | "core::cmp::Ordering" => true,
                    "alloc::vec::Vec" | "core::cmp::Reverse" | "core::option::Option" => self.plain_ord(args.type_at(0)),
                    _ => {
                        self.derived(tcx.get_diagnostic_item(rustc_span::sym::Ord), "cmp", &[ty.into()])
                            && !d.all_fields().any(|f| !self.plain_ord(tcx.normalize_erasing_regions(env(), f.ty(tcx, args))))
                    }
                }
            }
            _ => false,
        }
    }
    pub fn ty_arg(&self, c: &Call, i: usize) -> Ty {
        c.inst.args.types().nth(i).unwrap()
    }
    pub fn opt(&self, g: T, v: Val) -> Val {
        if g == term::TRUE {
            return Val::some(v);
        }
        if g == term::FALSE {
            return Val::none();
        }
        Val::Enum(Rc::new(EnumV { disc: term::ite(g, term::c(32, 1), term::c(32, 0)), pays: vec![(1, Rc::new(vec![v]))] }))
    }
}

pub fn cmp_val(lt: T, eq: T) -> Val {
    let d = term::ite(lt, term::c(32, 0), term::ite(eq, term::c(32, 1), term::c(32, 2)));
    Val::Enum(Rc::new(EnumV { disc: d, pays: vec![] }))
}

thread_local! {
    static TABLE: HashMap<&'static str, NFn> = {
        let mut m: HashMap<&'static str, NFn> = HashMap::new();
        crate::nat_core::register(&mut m);
        crate::nat_str::register(&mut m);
        crate::nat_coll::register(&mut m);
        m
    };
    static RTABLE: HashMap<&'static str, (&'static str, usize)> = crate::nat_coll::redirects();
}

pub fn lookup(name: &str) -> Option<NFn> {
    let c = canon(name);
    if let Some(f) = TABLE.with(|t| t.get(c.as_str()).copied()) {
        return Some(f);
    }
    if let Some(f) = TABLE.with(|t| t.get(name).copied()) {
        return Some(f);
    }
    crate::nat_core::pattern(name, &c).or_else(|| crate::nat_str::pattern(name, &c)).or_else(|| crate::nat_coll::pattern(name, &c))
}
pub fn redirect(name: &str) -> Option<(&'static str, usize)> {
    let c = canon(name);
    RTABLE.with(|t| t.get(name).or_else(|| t.get(c.as_str())).copied())
}
pub fn iter_impl(name: &str) -> Option<(&'static str, String)> {
    let c = canon(name);
    crate::nat_coll::iter_impl(&c)
}
#[allow(dead_code)]
pub fn is_closure(t: Ty) -> bool {
    matches!(t.kind(), TyKind::Closure(..) | TyKind::FnDef(..) | TyKind::FnPtr(..))
}
#[allow(dead_code)]
pub fn width_of(t: Ty) -> Option<u32> {
    int_width(t)
}
