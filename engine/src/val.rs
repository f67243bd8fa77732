//! Symbolic values: typed trees with terms at the leaves.
use crate::term::{self, T};
use crate::{Inst, Ty};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    Undef,
    Int(T),
    Agg(Rc<Vec<Val>>),
    /// arrays, Vec<T>, boxed slices; elements may carry presence guards
    Seq(Rc<SeqV>),
    Enum(Rc<EnumV>),
    /// Box<T>; the Ty is the concrete type when unsized to dyn
    Box(Rc<Val>, Option<Ty>),
    Ptr(Rc<PtrV>),
    /// &str, str, String
    Str(S),
    Fn(Inst),
    Map(Rc<MapV>),
    Iter(Rc<IterV>),
    Opaque(Rc<Opaque>),
    Ite(T, Rc<Val>, Rc<Val>),
}

#[derive(Clone, Debug, Default)]
pub struct SeqV {
    pub items: Vec<Val>,
    /// empty: all present
    pub guards: Vec<T>,
}
impl SeqV {
    pub fn guard(&self, i: usize) -> T {
        if self.guards.is_empty() {
            term::TRUE
        } else {
            self.guards[i]
        }
    }
    pub fn push(&mut self, g: T, v: Val) {
        if g != term::TRUE && self.guards.is_empty() {
            self.guards = vec![term::TRUE; self.items.len()];
        }
        self.items.push(v);
        if !self.guards.is_empty() || g != term::TRUE {
            self.guards.push(g);
        }
    }
    pub fn new(items: Vec<Val>, guards: Vec<T>) -> SeqV {
        if guards.iter().all(|g| *g == term::TRUE) {
            SeqV { items, guards: vec![] }
        } else {
            SeqV { items, guards }
        }
    }
    pub fn count(&self, a: usize, b: usize) -> T {
        if self.guards.is_empty() {
            return term::c(64, (b - a) as u128);
        }
        count(&self.guards[a..b])
    }
}
pub fn count(gs: &[T]) -> T {
    let mut n = term::c(64, 0);
    for g in gs {
        n = term::bin(term::Op::Add, n, term::zext(64, *g));
    }
    n
}

#[derive(Clone, Debug)]
pub struct EnumV {
    pub disc: T, // BV32 variant index
    pub pays: Vec<(u32, Rc<Vec<Val>>)>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Base {
    Local(u32, u32),
    Heap(u32),
    Const(u32),
    Dangling,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Proj {
    Field(u32),
    VField(u32, u32),
    Index(u32),
    Content, // box content
    Key(u32),
    Value(u32),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Meta {
    None,
    Slice(u32, u32), // start, len
    Dyn(Ty),
}
#[derive(Clone, Debug, PartialEq)]
pub struct PtrV {
    pub base: Base,
    pub path: Vec<Proj>,
    pub meta: Meta,
}

/// `id` is stable across merges and equal for equal constant keys
#[derive(Clone, Debug)]
pub struct Entry {
    pub id: u32,
    pub guard: T,
    pub k: Val,
    pub v: Val,
}
#[derive(Clone, Debug)]
pub struct MapV {
    pub sorted: bool,
    pub entries: Vec<Entry>,
}
#[derive(Clone, Debug)]
pub struct IterV {
    pub seq: Rc<SeqV>,
    pub i: usize,
    pub end: usize,
}
#[derive(Clone, Debug)]
pub enum Opaque {
    FmtArg { kind: &'static str, ty: Ty, val: Val },
    FmtArgs(Vec<FmtPiece>),
    Regex(String),
    Tagged(&'static str, Vec<Val>),
}
#[derive(Clone, Debug)]
pub enum FmtPiece {
    Lit(String),
    Arg(Val, bool),
}

#[derive(Clone, Debug)]
pub enum S {
    Const(Rc<str>),
    Chars(Rc<Vec<T>>),
    Ite(T, Rc<S>, Rc<S>),
}

impl S {
    pub fn lit(s: &str) -> S {
        S::Const(Rc::from(s))
    }
    pub fn from_chars(v: Vec<T>) -> S {
        let mut out = String::new();
        for t in &v {
            match term::as_const(*t).and_then(|x| char::from_u32(x as u32)) {
                Some(ch) => out.push(ch),
                None => return S::Chars(Rc::new(v)),
            }
        }
        S::Const(Rc::from(out.as_str()))
    }
    /// leaf chars (not for Ite)
    pub fn chars(&self) -> Vec<T> {
        match self {
            S::Const(s) => s.chars().map(|ch| term::c(32, ch as u128)).collect(),
            S::Chars(v) => (**v).clone(),
            S::Ite(..) => panic!("chars on ite"),
        }
    }
    pub fn ite(c: T, a: S, b: S) -> S {
        if c == term::TRUE {
            return a;
        }
        if c == term::FALSE {
            return b;
        }
        if a.same(&b) {
            return a;
        }
        // normalise: equal-length char leaves merge pointwise
        match (&a, &b) {
            (S::Const(_), S::Const(_)) => {}
            (S::Chars(_), S::Const(_)) | (S::Const(_), S::Chars(_)) | (S::Chars(_), S::Chars(_)) => {
                let (x, y) = (a.chars(), b.chars());
                if x.len() == y.len() {
                    return S::from_chars(x.iter().zip(&y).map(|(p, q)| term::ite(c, *p, *q)).collect());
                }
            }
            _ => {}
        }
        if !matches!((&a, &b), (S::Const(_), S::Const(_))) && a.leaves() + b.leaves() > 6 && (a.any_chars() || b.any_chars()) {
            let mut groups: Vec<(usize, T, S)> = vec![];
            a.by_len(c, &mut groups);
            b.by_len(term::not(c), &mut groups);
            let mut it = groups.into_iter().rev();
            let (_, _, mut r) = it.next().unwrap();
            for (_, g, s) in it {
                r = if g == term::TRUE { s } else { S::Ite(g, Rc::new(s), Rc::new(r)) };
            }
            return r;
        }
        if let S::Ite(c2, x, _) = &a {
            if *c2 == c {
                return S::ite(c, (**x).clone(), b);
            }
        }
        if let S::Ite(c2, _, y) = &b {
            if *c2 == c {
                return S::ite(c, a, (**y).clone());
            }
        }
        S::Ite(c, Rc::new(a), Rc::new(b))
    }
    fn any_chars(&self) -> bool {
        match self {
            S::Const(_) => false,
            S::Chars(_) => true,
            S::Ite(_, a, b) => a.any_chars() || b.any_chars(),
        }
    }
    /// leaves merged by length
    fn by_len(&self, g: T, out: &mut Vec<(usize, T, S)>) {
        if g == term::FALSE {
            return;
        }
        match self {
            S::Ite(c, a, b) => {
                a.by_len(term::and(g, *c), out);
                b.by_len(term::and(g, term::not(*c)), out);
            }
            _ => {
                let v = self.chars();
                match out.iter_mut().find(|x| x.0 == v.len()) {
                    None => out.push((v.len(), g, self.clone())),
                    Some(x) => {
                        let w = x.2.chars();
                        // the guards of different leaves are exclusive
                        x.2 = S::from_chars(v.iter().zip(&w).map(|(p, q)| term::ite(g, *p, *q)).collect());
                        x.1 = term::or(x.1, g);
                    }
                }
            }
        }
    }
    /// without the choices that are already made
    pub fn prune(&self, st: &crate::exec::State) -> S {
        match self {
            S::Ite(c, a, b) => match st.decide(*c) {
                Ok(true) => a.prune(st),
                Ok(false) => b.prune(st),
                Err(_) => S::ite(*c, a.prune(st), b.prune(st)),
            },
            _ => self.clone(),
        }
    }
    /// a choice that is still open
    pub fn open_guard(&self, st: &crate::exec::State) -> Option<T> {
        match self {
            S::Ite(c, a, b) => match st.decide(*c) {
                Err(crate::exec::Ex::Split(c)) => Some(c),
                Ok(true) => a.open_guard(st),
                Ok(false) => b.open_guard(st),
                Err(_) => None,
            },
            _ => None,
        }
    }
    pub fn same(&self, o: &S) -> bool {
        match (self, o) {
            (S::Const(a), S::Const(b)) => Rc::ptr_eq(a, b) || a == b,
            (S::Chars(a), S::Chars(b)) => Rc::ptr_eq(a, b) || a == b,
            (S::Ite(c, a, b), S::Ite(d, x, y)) => {
                c == d && (Rc::ptr_eq(a, x) || a.same(x)) && (Rc::ptr_eq(b, y) || b.same(y))
            }
            _ => false,
        }
    }
    /// the distinct constants with the condition of each; false if some leaf is symbolic
    fn consts(&self, g: T, out: &mut Vec<(Rc<str>, T)>) -> bool {
        if g == term::FALSE {
            return true;
        }
        match self {
            S::Const(s) => {
                match out.iter_mut().find(|x| x.0 == *s) {
                    Some(x) => x.1 = term::or(x.1, g),
                    None => out.push((s.clone(), g)),
                }
                true
            }
            S::Chars(_) => false,
            S::Ite(c, a, b) => {
                a.consts(term::and(g, *c), out) && b.consts(term::and(g, term::not(*c)), out)
            }
        }
    }
    pub fn eq(&self, o: &S) -> T {
        if let (S::Ite(..), S::Ite(..)) = (self, o) {
            let (mut x, mut y) = (vec![], vec![]);
            if self.consts(term::TRUE, &mut x) && o.consts(term::TRUE, &mut y) {
                let mut r = term::FALSE;
                for (s, g) in &x {
                    if let Some(h) = y.iter().find(|h| h.0 == *s) {
                        r = term::or(r, term::and(*g, h.1));
                    }
                }
                return r;
            }
        }
        match (self, o) {
            (S::Ite(c, a, b), _) => term::ite(*c, a.eq(o), b.eq(o)),
            (_, S::Ite(c, a, b)) => term::ite(*c, self.eq(a), self.eq(b)),
            (S::Const(a), S::Const(b)) => term::b(a == b),
            _ => {
                let (x, y) = (self.chars(), o.chars());
                if x.len() != y.len() {
                    return term::FALSE;
                }
                let v: Vec<T> = x.iter().zip(&y).map(|(a, b)| term::eq(*a, *b)).collect();
                term::conj(&v)
            }
        }
    }
    /// lexicographic less-than by code point
    pub fn lt(&self, o: &S) -> T {
        match (self, o) {
            (S::Ite(c, a, b), _) => term::ite(*c, a.lt(o), b.lt(o)),
            (_, S::Ite(c, a, b)) => term::ite(*c, self.lt(a), self.lt(b)),
            (S::Const(a), S::Const(b)) => term::b(a < b),
            _ => {
                let (x, y) = (self.chars(), o.chars());
                let n = x.len().min(y.len());
                let mut r = term::b(x.len() < y.len());
                for i in (0..n).rev() {
                    r = term::ite(term::eq(x[i], y[i]), r, term::ult(x[i], y[i]));
                }
                r
            }
        }
    }
    pub fn map_bool(&self, f: &dyn Fn(&S) -> T) -> T {
        match self {
            S::Ite(c, a, b) => term::ite(*c, a.map_bool(f), b.map_bool(f)),
            x => f(x),
        }
    }
    pub fn map(&self, f: &dyn Fn(&S) -> S) -> S {
        match self {
            S::Ite(c, a, b) => S::ite(*c, a.map(f), b.map(f)),
            x => f(x),
        }
    }
    pub fn len_bytes(&self) -> T {
        self.map_bool(&|s| match s {
            S::Const(x) => term::c(64, x.len() as u128),
            _ => {
                let mut n = term::c(64, 0);
                for ch in s.chars() {
                    n = term::bin(term::Op::Add, n, char_len(ch));
                }
                n
            }
        })
    }
    pub fn concat(&self, o: &S) -> S {
        match (self, o) {
            (S::Ite(c, a, b), _) => S::ite(*c, a.concat(o), b.concat(o)),
            (_, S::Ite(c, a, b)) => S::ite(*c, self.concat(a), self.concat(b)),
            (S::Const(a), S::Const(b)) => {
                if a.is_empty() {
                    o.clone()
                } else if b.is_empty() {
                    self.clone()
                } else {
                    S::Const(Rc::from(format!("{}{}", a, b).as_str()))
                }
            }
            _ => {
                let mut v = self.chars();
                v.extend(o.chars());
                S::from_chars(v)
            }
        }
    }
    /// first undecided guard, if any
    pub fn guard(&self) -> Option<T> {
        match self {
            S::Ite(c, _, _) => Some(*c),
            _ => None,
        }
    }
    pub fn as_const(&self) -> Option<&str> {
        match self {
            S::Const(s) => Some(s),
            _ => None,
        }
    }
    pub fn leaves(&self) -> usize {
        match self {
            S::Ite(_, a, b) => a.leaves() + b.leaves(),
            _ => 1,
        }
    }
}

pub fn char_len(ch: T) -> T {
    let k = |n: u128| term::c(64, n);
    if let Some(x) = term::as_const(ch) {
        return k(char::from_u32(x as u32).map(|c| c.len_utf8()).unwrap_or(1) as u128);
    }
    let lt = |n: u128| term::ult(ch, term::c(32, n));
    term::ite(lt(0x80), k(1), term::ite(lt(0x800), k(2), term::ite(lt(0x10000), k(3), k(4))))
}

impl Val {
    pub fn unit() -> Val {
        Val::Agg(Rc::new(vec![]))
    }
    pub fn bool(x: bool) -> Val {
        Val::Int(term::b(x))
    }
    pub fn usize(x: usize) -> Val {
        Val::Int(term::c(64, x as u128))
    }
    pub fn str(x: &str) -> Val {
        Val::Str(S::lit(x))
    }
    pub fn agg(v: Vec<Val>) -> Val {
        Val::Agg(Rc::new(v))
    }
    pub fn seq(v: Vec<Val>) -> Val {
        Val::Seq(Rc::new(SeqV { items: v, guards: vec![] }))
    }
    pub fn gseq(items: Vec<Val>, guards: Vec<T>) -> Val {
        Val::Seq(Rc::new(SeqV::new(items, guards)))
    }
    pub fn variant(i: u32, fields: Vec<Val>) -> Val {
        Val::Enum(Rc::new(EnumV {
            disc: term::c(32, i as u128),
            pays: if fields.is_empty() { vec![] } else { vec![(i, Rc::new(fields))] },
        }))
    }
    pub fn none() -> Val {
        Val::variant(0, vec![])
    }
    pub fn some(v: Val) -> Val {
        Val::variant(1, vec![v])
    }
    pub fn ok(v: Val) -> Val {
        Val::variant(0, vec![v])
    }
    pub fn err(v: Val) -> Val {
        Val::variant(1, vec![v])
    }
    pub fn iter(items: Vec<Val>) -> Val {
        let end = items.len();
        Val::Iter(Rc::new(IterV { seq: Rc::new(SeqV { items, guards: vec![] }), i: 0, end }))
    }
    pub fn giter(items: Vec<Val>, guards: Vec<T>) -> Val {
        let end = items.len();
        Val::Iter(Rc::new(IterV { seq: Rc::new(SeqV::new(items, guards)), i: 0, end }))
    }
    pub fn ptr(base: Base, path: Vec<Proj>, meta: Meta) -> Val {
        Val::Ptr(Rc::new(PtrV { base, path, meta }))
    }
    /// cheap identity test
    pub fn ident(&self, o: &Val) -> bool {
        match (self, o) {
            (Val::Undef, Val::Undef) => true,
            (Val::Int(a), Val::Int(b)) => a == b,
            (Val::Agg(a), Val::Agg(b)) => Rc::ptr_eq(a, b) || (a.is_empty() && b.is_empty()),
            (Val::Seq(a), Val::Seq(b)) => Rc::ptr_eq(a, b) || (a.items.is_empty() && b.items.is_empty()),
            (Val::Enum(a), Val::Enum(b)) => Rc::ptr_eq(a, b),
            (Val::Box(a, _), Val::Box(b, _)) => Rc::ptr_eq(a, b),
            (Val::Ptr(a), Val::Ptr(b)) => Rc::ptr_eq(a, b) || a == b,
            (Val::Str(a), Val::Str(b)) => a.same(b),
            (Val::Fn(a), Val::Fn(b)) => a == b,
            (Val::Map(a), Val::Map(b)) => Rc::ptr_eq(a, b),
            (Val::Iter(a), Val::Iter(b)) => {
                Rc::ptr_eq(a, b) || (Rc::ptr_eq(&a.seq, &b.seq) && a.i == b.i && a.end == b.end)
            }
            (Val::Opaque(a), Val::Opaque(b)) => Rc::ptr_eq(a, b),
            (Val::Ite(c, a, b), Val::Ite(d, x, y)) => c == d && Rc::ptr_eq(a, x) && Rc::ptr_eq(b, y),
            _ => false,
        }
    }
}

/// May two values of this kind be kept apart under an ite when they do not merge structurally?
fn ite_ok(a: &Val, b: &Val) -> bool {
    let k = |v: &Val| match v {
        Val::Seq(_) => 1,
        Val::Map(_) => 2,
        Val::Box(..) => 3,
        Val::Str(_) => 4,
        Val::Ptr(_) => 5,
        Val::Agg(_) | Val::Enum(_) => 6,
        Val::Ite(_, a, _) => match &**a {
            Val::Seq(_) => 1,
            Val::Map(_) => 2,
            Val::Box(..) => 3,
            Val::Str(_) => 4,
            Val::Ptr(_) => 5,
            _ => 0,
        },
        _ => 0,
    };
    let (x, y) = (k(a), k(b));
    x == y && (1..=5).contains(&x)
}

/// Merge: `a` when c else `b`. None: not mergeable.
pub fn merge(c: T, a: &Val, b: &Val) -> Option<Val> {
    if a.ident(b) {
        return Some(a.clone());
    }
    match (a, b) {
        (Val::Undef, x) | (x, Val::Undef) => Some(x.clone()),
        (Val::Int(x), Val::Int(y)) => {
            if term::width(*x) != term::width(*y) {
                return None;
            }
            Some(Val::Int(term::ite(c, *x, *y)))
        }
        (Val::Agg(x), Val::Agg(y)) => Some(Val::Agg(merge_vec(c, x, y)?)),
        (Val::Seq(x), Val::Seq(y)) => match merge_seq(c, x, y) {
            Some(v) => Some(Val::Seq(Rc::new(v))),
            None => mk_ite(c, a, b),
        },
        (Val::Enum(x), Val::Enum(y)) => {
            let mut pays = x.pays.clone();
            for (i, p) in &y.pays {
                if let Some(k) = pays.iter().position(|(j, _)| j == i) {
                    let m = merge_vec(c, &pays[k].1.clone(), p)?;
                    pays[k].1 = m;
                } else {
                    pays.push((*i, p.clone()));
                }
            }
            Some(Val::Enum(Rc::new(EnumV { disc: term::ite(c, x.disc, y.disc), pays })))
        }
        (Val::Box(x, t), Val::Box(y, u)) => {
            if t == u {
                if let Some(v) = merge(c, x, y) {
                    return Some(Val::Box(Rc::new(v), *t));
                }
            }
            mk_ite(c, a, b)
        }
        (Val::Str(x), Val::Str(y)) => {
            if x.leaves() + y.leaves() > 400 {
                return None;
            }
            Some(Val::Str(S::ite(c, x.clone(), y.clone())))
        }
        (Val::Map(x), Val::Map(y)) => match merge_map(c, x, y) {
            Some(m) => Some(Val::Map(Rc::new(m))),
            None => mk_ite(c, a, b),
        },
        (Val::Iter(x), Val::Iter(y)) => {
            let cut = |v: &IterV| SeqV {
                items: v.seq.items[v.i..v.end].to_vec(),
                guards: if v.seq.guards.is_empty() { vec![] } else { v.seq.guards[v.i..v.end].to_vec() },
            };
            let seq = merge_seq(c, &cut(x), &cut(y))?;
            let end = seq.items.len();
            Some(Val::Iter(Rc::new(IterV { seq: Rc::new(seq), i: 0, end })))
        }
        (Val::Opaque(x), Val::Opaque(y)) => match (&**x, &**y) {
            (Opaque::Regex(p), Opaque::Regex(q)) if p == q => Some(a.clone()),
            (Opaque::Tagged(p, v), Opaque::Tagged(q, w)) if p == q => {
                let m = merge_vec(c, &Rc::new(v.clone()), &Rc::new(w.clone()))?;
                Some(Val::Opaque(Rc::new(Opaque::Tagged(p, (*m).clone()))))
            }
            _ => None,
        },
        _ => mk_ite(c, a, b),
    }
}
/// Pairwise merge; the longer tail becomes guarded. Physical positions are preserved on both sides.
fn merge_seq(c: T, x: &SeqV, y: &SeqV) -> Option<SeqV> {
    let n = x.items.len().max(y.items.len());
    let mut items = Vec::with_capacity(n);
    let mut guards = Vec::with_capacity(n);
    for i in 0..n {
        match (x.items.get(i), y.items.get(i)) {
            (Some(a), Some(b)) => {
                items.push(merge(c, a, b)?);
                guards.push(term::ite(c, x.guard(i), y.guard(i)));
            }
            (Some(a), None) => {
                items.push(a.clone());
                guards.push(term::and(c, x.guard(i)));
            }
            (None, Some(b)) => {
                items.push(b.clone());
                guards.push(term::and(term::not(c), y.guard(i)));
            }
            _ => unreachable!(),
        }
    }
    Some(SeqV::new(items, guards))
}
fn mk_ite(c: T, a: &Val, b: &Val) -> Option<Val> {
    if !ite_ok(a, b) {
        return None;
    }
    fn depth(v: &Val) -> usize {
        match v {
            Val::Ite(_, a, b) => 1 + depth(a).max(depth(b)),
            _ => 0,
        }
    }
    if depth(a) + depth(b) > 24 {
        return None;
    }
    Some(Val::Ite(c, Rc::new(a.clone()), Rc::new(b.clone())))
}
pub fn merge_vec(c: T, x: &Rc<Vec<Val>>, y: &Rc<Vec<Val>>) -> Option<Rc<Vec<Val>>> {
    if Rc::ptr_eq(x, y) {
        return Some(x.clone());
    }
    if x.len() != y.len() {
        return None;
    }
    let mut out = Vec::with_capacity(x.len());
    for (a, b) in x.iter().zip(y.iter()) {
        out.push(merge(c, a, b)?);
    }
    Some(Rc::new(out))
}
fn merge_map(c: T, x: &MapV, y: &MapV) -> Option<MapV> {
    if x.sorted != y.sorted {
        return None;
    }
    let ck = |v: &Val| -> Option<String> {
        match v {
            Val::Str(S::Const(s)) => Some(s.to_string()),
            _ => None,
        }
    };
    // identical key vectors
    if x.entries.len() == y.entries.len()
        && x.entries.iter().zip(&y.entries).all(|(a, b)| a.id == b.id && a.k.ident(&b.k))
    {
        let mut out = vec![];
        for (a, b) in x.entries.iter().zip(&y.entries) {
            out.push(Entry {
                id: a.id,
                guard: term::ite(c, a.guard, b.guard),
                k: a.k.clone(),
                v: merge(c, &a.v, &b.v)?,
            });
        }
        return Some(MapV { sorted: x.sorted, entries: out });
    }
    let mut out: Vec<Entry> = vec![];
    let ykeys: Vec<String> = y.entries.iter().map(|e| ck(&e.k)).collect::<Option<_>>()?;
    let xkeys: Vec<String> = x.entries.iter().map(|e| ck(&e.k)).collect::<Option<_>>()?;
    for (i, a) in x.entries.iter().enumerate() {
        if let Some(j) = ykeys.iter().position(|k| *k == xkeys[i]) {
            let b = &y.entries[j];
            out.push(Entry {
                id: a.id,
                guard: term::ite(c, a.guard, b.guard),
                k: a.k.clone(),
                v: merge(c, &a.v, &b.v)?,
            });
        } else {
            out.push(Entry { guard: term::and(c, a.guard), ..a.clone() });
        }
    }
    for (j, b) in y.entries.iter().enumerate() {
        if !xkeys.contains(&ykeys[j]) {
            let e = Entry { guard: term::and(term::not(c), b.guard), ..b.clone() };
            if x.sorted {
                let pos = out
                    .iter()
                    .position(|o| ck(&o.k).unwrap() > ykeys[j])
                    .unwrap_or(out.len());
                out.insert(pos, e);
            } else {
                out.push(e);
            }
        }
    }
    Some(MapV { sorted: x.sorted, entries: out })
}
