//! Symbolic interpreter: path forking with merging at post-dominators.
use crate::lower::*;
use crate::smt::{Res, Smt};
use crate::term::{self, Node, Op, T};
use crate::val::*;
use crate::{Inst, Ty};
use rustc_middle::mir::{BinOp, UnOp};
use rustc_middle::ty::{self, TyKind};
use crate::fx::{Map as FMap, Set as FSet};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub enum Ex {
    Split(T),
    /// guarded iterator item: take it or skip it
    Skip(Rc<PtrV>, T, bool),
    Panic(String),
    Unsup(String),
    Infeasible,
}
pub type R<X> = Result<X, Ex>;
pub fn unsup<X>(s: impl Into<String>) -> R<X> {
    Err(Ex::Unsup(s.into()))
}

pub struct Model {
    pub asg: HashMap<String, u128>,
    cache: RefCell<FMap<T, u128>>,
}
impl Model {
    pub fn new(asg: HashMap<String, u128>) -> Rc<Model> {
        Rc::new(Model { asg, cache: RefCell::new(FMap::default()) })
    }
    pub fn eval(&self, t: T) -> u128 {
        term::eval(t, &self.asg, &mut self.cache.borrow_mut())
    }
}

#[derive(Default)]
pub struct Lits {
    set: FSet<T>,
    eqs: FMap<T, T>,
    memo: RefCell<FMap<T, Option<bool>>>,
    smemo: RefCell<FMap<T, T>>,
}
impl Clone for Lits {
    fn clone(&self) -> Lits {
        Lits { set: self.set.clone(), eqs: self.eqs.clone(), memo: Default::default(), smemo: Default::default() }
    }
}
impl Lits {
    pub fn add(&mut self, t: T) {
        self.memo.get_mut().clear();
        self.smemo.get_mut().clear();
        match term::node(t) {
            Node::And(xs) => xs.iter().for_each(|x| self.add(*x)),
            Node::Eq(a, k) if term::as_const(k).is_some() => {
                self.eqs.insert(a, k);
                self.set.insert(t);
            }
            _ => {
                self.set.insert(t);
            }
        }
    }
    pub fn known(&self, t: T) -> Option<bool> {
        if let Some(b) = term::as_bool(t) {
            return Some(b);
        }
        if self.set.contains(&t) {
            return Some(true);
        }
        if let Some(r) = self.memo.borrow().get(&t) {
            return *r;
        }
        let r = self.known2(t);
        self.memo.borrow_mut().insert(t, r);
        r
    }
    fn known2(&self, t: T) -> Option<bool> {
        let nt = term::not(t);
        if self.set.contains(&nt) {
            return Some(false);
        }
        match term::node(t) {
            Node::Not(x) => self.known(x).map(|b| !b),
            Node::And(xs) => {
                let mut all = true;
                for &x in xs.iter() {
                    match self.known(x) {
                        Some(false) => return Some(false),
                        Some(true) => {}
                        None => all = false,
                    }
                }
                if all {
                    Some(true)
                } else {
                    None
                }
            }
            Node::Eq(a, k) => match (self.eqs.get(&a), term::as_const(k)) {
                (Some(o), Some(_)) => Some(*o == k),
                _ => None,
            },
            Node::IteB(c, x, y) => match self.known(c) {
                Some(true) => self.known(x),
                Some(false) => self.known(y),
                None => match (self.known(x), self.known(y)) {
                    (Some(a), Some(b)) if a == b => Some(a),
                    _ => None,
                },
            },
            _ => None,
        }
    }
    pub fn simp(&self, t: T) -> T {
        if term::as_const(t).is_some() {
            return t;
        }
        if let Some(r) = self.smemo.borrow().get(&t) {
            return *r;
        }
        let w = term::width(t);
        let r = if w == 0 {
            if let Some(b) = self.known(t) {
                term::b(b)
            } else {
                match term::node(t) {
                    Node::Not(x) => term::not(self.simp(x)),
                    Node::And(xs) => {
                        let v: Vec<T> = xs.iter().map(|x| self.simp(*x)).collect();
                        term::conj(&v)
                    }
                    Node::IteB(c, x, y) => {
                        let c = self.simp(c);
                        match term::as_bool(c) {
                            Some(true) => self.simp(x),
                            Some(false) => self.simp(y),
                            None => term::ite(c, self.simp(x), self.simp(y)),
                        }
                    }
                    Node::Eq(x, y) => term::eq(self.simp(x), self.simp(y)),
                    Node::Ult(x, y) => term::ult(self.simp(x), self.simp(y)),
                    _ => t,
                }
            }
        } else {
            if let Some(k) = self.eqs.get(&t) {
                *k
            } else {
                match term::node(t) {
                    Node::Ite(c, x, y) => {
                        let c = self.simp(c);
                        match term::as_bool(c) {
                            Some(true) => self.simp(x),
                            Some(false) => self.simp(y),
                            None => term::ite(c, self.simp(x), self.simp(y)),
                        }
                    }
                    Node::ZExt(w, x) => term::zext(w, self.simp(x)),
                    Node::Extract(w, x) => term::trunc(w, self.simp(x)),
                    Node::Bin(op, x, y) => term::bin(op, self.simp(x), self.simp(y)),
                    _ => t,
                }
            }
        };
        self.smemo.borrow_mut().insert(t, r);
        r
    }
}

#[derive(Clone)]
pub struct Frame {
    pub uid: u64,
    pub body: Rc<Body>,
    pub locals: Vec<Val>,
    pub bb: usize,
    pub stmt: usize,
    pub dest: Rc<Place>,
    pub ret: Option<usize>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub heap: Vec<Val>,
    /// statics that were written to, and those of suspended histories
    pub over: Rc<BTreeMap<u32, Val>>,
    pub saved: Vec<Rc<BTreeMap<u32, Val>>>,
    pub pc: Vec<T>,
    pub lits: Rc<Lits>,
    pub model: Rc<Model>,
    /// hash iteration order mode and event counter
    pub order_mode: u32,
    pub order_ctr: u32,
    pub reach: BTreeSet<Rc<str>>,
    pub result: Option<Val>,
}

pub struct Stop {
    depth: usize,
    bb: usize,
    stmt: usize,
    uid: Option<u64>,
    sig: Option<Vec<(*const Body, usize, usize)>>,
}

pub struct Violation {
    pub id: String,
    pub kind: &'static str,
    pub msg: String,
    pub asg: HashMap<String, u128>,
}

#[derive(Default)]
pub struct Stats {
    pub steps: u64,
    pub forks: u64,
    pub merges: u64,
    pub merge_fail: u64,
    pub ends: u64,
    pub panics: u64,
    pub checks: u64,
    pub check_queries: u64,
    pub max_live: usize,
    pub natives: BTreeMap<String, u64>,
    pub check_ids: BTreeMap<String, (u64, u64)>,
}

pub struct Config {
    pub max_viol_per_id: usize,
    pub deadline: std::time::Instant,
    pub trace: bool,
    pub dump_smt: Option<String>,
    pub merge: bool,
}

pub enum Kind {
    Native(crate::natives::NFn),
    Body(Rc<Body>),
    Virtual(rustc_hir::def_id::DefId),
    Redirect(Inst),
    Bad(String),
}
pub struct Callee2 {
    pub name: String,
    pub kind: Kind,
}

pub struct Engine {
    pub eq_ok: std::cell::RefCell<HashMap<Ty, bool>>,
    pub lower: Lower,
    pub smt: Smt,
    pub callees: HashMap<Inst, Rc<Callee2>>,
    pub bodies: HashMap<Inst, Rc<Body>>,
    pub cfg: Config,
    pub stats: Stats,
    pub viol: Vec<Violation>,
    pub unsup: BTreeMap<String, u64>,
    pub unsup_asg: Vec<(String, HashMap<String, u128>)>,
    pub uid: u64,
    pub key_ids: HashMap<String, u32>,
    pub fresh_id: u32,
    pub shims: HashMap<String, rustc_hir::def_id::DefId>,
    pub fns_seen: BTreeMap<String, (usize, bool)>,
    pool: Vec<Rc<Model>>,
    pub pool_hits: u64,
    qcache: FMap<Vec<T>, (Res, Option<Rc<Model>>)>,
    pub out_of_time: bool,
    pub timeouts: u64,
    pub vars: BTreeMap<String, (u32, String)>,
    pub ends: Vec<(Rc<Model>, BTreeSet<Rc<str>>, Option<Val>)>,
    pub smt_dump_n: u64,
    pub regexes: HashMap<String, Rc<crate::regexsym::Dfa>>,
    pub reached: BTreeMap<String, u64>,
    /// concrete values for inputs (translator validation)
    pub fix: HashMap<String, u128>,
}

fn lits_of(pc: &[T]) -> Lits {
    let mut l = Lits::default();
    for t in pc {
        l.add(*t);
    }
    l
}

impl State {
    pub fn top(&self) -> &Frame {
        self.frames.last().unwrap()
    }
    pub fn top_mut(&mut self) -> &mut Frame {
        Rc::make_mut(self.frames.last_mut().unwrap())
    }
    pub fn known(&self, t: T) -> Option<bool> {
        self.lits.known(t)
    }
    pub fn decide(&self, t: T) -> R<bool> {
        match self.known(t) {
            Some(b) => Ok(b),
            None => {
                let s = self.lits.simp(t);
                match term::as_bool(s) {
                    Some(b) => Ok(b),
                    None => Err(Ex::Split(t)),
                }
            }
        }
    }
    fn base(&self, b: Base, consts: &[Val]) -> R<*const Val> {
        Ok(match b {
            Base::Local(f, l) => match self.frames.get(f as usize).and_then(|fr| fr.locals.get(l as usize)) {
                Some(v) => v as *const Val,
                None => return unsup("dangling local pointer"),
            },
            Base::Heap(i) => &self.heap[i as usize],
            Base::Const(i) => match self.over.get(&i) {
                Some(v) => v,
                None => &consts[i as usize],
            },
            Base::Dangling => return unsup("read through dangling pointer"),
        })
    }
    pub fn get<'a>(&'a self, consts: &'a [Val], b: Base, path: &[Proj]) -> R<&'a Val> {
        let mut v: &'a Val = unsafe { &*self.base(b, consts)? };
        v = self.res(v)?;
        for p in path {
            v = self.step_in(v, *p)?;
            v = self.res(v)?;
        }
        Ok(v)
    }
    /// resolve top-level ites
    pub fn res<'a>(&self, v: &'a Val) -> R<&'a Val> {
        let mut v = v;
        while let Val::Ite(c, a, b) = v {
            v = if self.decide(*c)? { a } else { b };
        }
        Ok(v)
    }
    fn step_in<'a>(&self, v: &'a Val, p: Proj) -> R<&'a Val> {
        match (v, p) {
            (Val::Agg(f), Proj::Field(i)) => match f.get(i as usize) {
                Some(x) => Ok(x),
                None => unsup(format!("field {} of agg len {}", i, f.len())),
            },
            (Val::Enum(e), Proj::VField(k, i)) => {
                match e.pays.iter().find(|(j, _)| *j == k).and_then(|(_, p)| p.get(i as usize)) {
                    Some(x) => Ok(x),
                    None => unsup("payload of absent variant"),
                }
            }
            (Val::Seq(s), Proj::Index(i)) => match s.items.get(i as usize) {
                Some(x) => Ok(x),
                None => unsup("physical index out of range"),
            },
            (Val::Box(b, _), Proj::Content) => Ok(b),
            (Val::Map(m), Proj::Key(id)) => match m.entries.iter().find(|e| e.id == id) {
                Some(e) => Ok(&e.k),
                None => unsup("stale map entry"),
            },
            (Val::Map(m), Proj::Value(id)) => match m.entries.iter().find(|e| e.id == id) {
                Some(e) => Ok(&e.v),
                None => unsup("stale map entry"),
            },
            (Val::Undef, _) => unsup("projection of undefined value"),
            (Val::Ptr(_) | Val::Int(_) | Val::Str(_) | Val::Fn(_) | Val::Iter(_) | Val::Map(_) | Val::Box(..) | Val::Opaque(_) | Val::Seq(_), Proj::Field(0)) => Ok(v),
            (v, p) => unsup(format!("projection {:?} of {}", p, kind(v))),
        }
    }
    pub fn set(&mut self, b: Base, path: &[Proj], val: Val) -> R<()> {
        let lits = self.lits.clone();
        let slot: &mut Val = match b {
            Base::Local(f, l) => {
                let fr = match self.frames.get_mut(f as usize) {
                    Some(f) => Rc::make_mut(f),
                    None => return unsup("write to dangling local"),
                };
                &mut fr.locals[l as usize]
            }
            Base::Heap(i) => &mut self.heap[i as usize],
            Base::Const(i) if self.over.contains_key(&i) => Rc::make_mut(&mut self.over).get_mut(&i).unwrap(),
            Base::Const(i) => match STATICS.with(|s| s.borrow().get(&i).cloned()) {
                Some(v) => Rc::make_mut(&mut self.over).entry(i).or_insert(v),
                None => return unsup("write to constant"),
            },
            _ => return unsup("write to constant"),
        };
        set_in(slot, path, val, &lits)
    }
    pub fn feasible_quick(&self, c: T) -> bool {
        self.model.eval(c) != 0
    }
}

fn merge_over(c: T, a: &Rc<BTreeMap<u32, Val>>, b: &Rc<BTreeMap<u32, Val>>) -> Option<Rc<BTreeMap<u32, Val>>> {
    if Rc::ptr_eq(a, b) || a.is_empty() && b.is_empty() {
        return Some(a.clone());
    }
    STATICS.with(|s| {
        let s = s.borrow();
        let mut out = BTreeMap::new();
        for i in a.keys().chain(b.keys()) {
            let (x, y) = (a.get(i).or(s.get(i))?, b.get(i).or(s.get(i))?);
            out.insert(*i, merge(c, x, y)?);
        }
        Some(Rc::new(out))
    })
}

pub fn kind(v: &Val) -> &'static str {
    match v {
        Val::Undef => "undef",
        Val::Int(_) => "int",
        Val::Agg(_) => "agg",
        Val::Seq(_) => "seq",
        Val::Enum(_) => "enum",
        Val::Box(..) => "box",
        Val::Ptr(_) => "ptr",
        Val::Str(_) => "str",
        Val::Fn(_) => "fn",
        Val::Map(_) => "map",
        Val::Iter(_) => "iter",
        Val::Opaque(_) => "opaque",
        Val::Ite(..) => "ite",
    }
}

fn set_in(slot: &mut Val, path: &[Proj], val: Val, lits: &Lits) -> R<()> {
    if path.is_empty() {
        *slot = val;
        return Ok(());
    }
    // resolve ite
    loop {
        let n = match slot {
            Val::Ite(c, a, b) => match term::as_bool(lits.simp(*c)) {
                Some(true) => (**a).clone(),
                Some(false) => (**b).clone(),
                None => return Err(Ex::Split(*c)),
            },
            _ => break,
        };
        *slot = n;
    }
    let rest = &path[1..];
    match (&mut *slot, path[0]) {
        (Val::Agg(f), Proj::Field(i)) => {
            let f = Rc::make_mut(f);
            while f.len() <= i as usize {
                f.push(Val::Undef);
            }
            set_in(&mut f[i as usize], rest, val, lits)
        }
        (Val::Undef, Proj::Field(i)) => {
            let mut f = vec![Val::Undef; i as usize + 1];
            set_in(&mut f[i as usize], rest, val, lits)?;
            *slot = Val::agg(f);
            Ok(())
        }
        (Val::Enum(e), Proj::VField(k, i)) => {
            let e = Rc::make_mut(e);
            if !e.pays.iter().any(|(j, _)| *j == k) {
                e.pays.push((k, Rc::new(vec![])));
            }
            let p = e.pays.iter_mut().find(|(j, _)| *j == k).unwrap();
            let f = Rc::make_mut(&mut p.1);
            while f.len() <= i as usize {
                f.push(Val::Undef);
            }
            set_in(&mut f[i as usize], rest, val, lits)
        }
        (Val::Undef, Proj::VField(k, i)) => {
            let mut f = vec![Val::Undef; i as usize + 1];
            set_in(&mut f[i as usize], rest, val, lits)?;
            *slot = Val::variant(k, f);
            Ok(())
        }
        (Val::Seq(s), Proj::Index(i)) => {
            let s = Rc::make_mut(s);
            if i as usize >= s.items.len() {
                return unsup("write out of range");
            }
            set_in(&mut s.items[i as usize], rest, val, lits)
        }
        (Val::Box(b, _), Proj::Content) => set_in(Rc::make_mut(b), rest, val, lits),
        (Val::Map(m), Proj::Value(id)) => {
            let m = Rc::make_mut(m);
            match m.entries.iter_mut().find(|e| e.id == id) {
                Some(e) => set_in(&mut e.v, rest, val, lits),
                None => unsup("stale map entry write"),
            }
        }
        (Val::Ptr(_) | Val::Int(_) | Val::Str(_) | Val::Fn(_) | Val::Iter(_) | Val::Map(_) | Val::Box(..) | Val::Opaque(_) | Val::Seq(_), Proj::Field(0)) => {
            set_in(slot, rest, val, lits)
        }
        (v, p) => unsup(format!("write projection {:?} of {}", p, kind(v))),
    }
}

pub enum Loc {
    Mem(Base, Vec<Proj>, Meta),
    Direct(Val),
}

pub enum Nat {
    Val(Val),
    Call(Inst, Vec<Val>),
    /// call with closure-style (env, tuple) arguments already split
    CallDyn(Val, Vec<Val>),
}

impl Engine {
    pub fn new(lower: Lower, smt: Smt, cfg: Config) -> Engine {
        Engine {
            eq_ok: Default::default(),
            lower,
            smt,
            callees: HashMap::new(),
            bodies: HashMap::new(),
            cfg,
            stats: Stats::default(),
            viol: vec![],
            unsup: BTreeMap::new(),
            unsup_asg: vec![],
            uid: 0,
            key_ids: HashMap::new(),
            fresh_id: 0,
            shims: HashMap::new(),
            fns_seen: BTreeMap::new(),
            qcache: FMap::default(),
            pool: vec![],
            pool_hits: 0,
            out_of_time: false,
            timeouts: 0,
            vars: BTreeMap::new(),
            ends: vec![],
            smt_dump_n: 0,
            regexes: HashMap::new(),
            reached: BTreeMap::new(),
            fix: HashMap::new(),
        }
    }
    pub fn pool_models(&self) -> &[Rc<Model>] {
        &self.pool
    }
    pub fn key_id(&mut self, k: &Val) -> u32 {
        let s = match k {
            Val::Str(S::Const(s)) => format!("s{}", s),
            Val::Int(t) if term::as_const(*t).is_some() => format!("i{}", term::as_const(*t).unwrap()),
            Val::Enum(e) if term::as_const(e.disc).is_some() && e.pays.iter().all(|p| p.1.is_empty()) => {
                format!("e{}", term::as_const(e.disc).unwrap())
            }
            _ => {
                self.fresh_id += 1;
                return self.fresh_id;
            }
        };
        if let Some(i) = self.key_ids.get(&s) {
            return *i;
        }
        self.fresh_id += 1;
        self.key_ids.insert(s, self.fresh_id);
        self.fresh_id
    }

    pub fn local_loc(&self, st: &State, p: &Place) -> R<Loc> {
        let depth = (st.frames.len() - 1) as u32;
        self.place_at(st, depth, p)
    }
    fn place_at(&self, st: &State, depth: u32, p: &Place) -> R<Loc> {
        let mut base = Base::Local(depth, p.local);
        let mut path: Vec<Proj> = vec![];
        let mut meta = Meta::None;
        let mut variant: Option<u32> = None;
        let n = p.proj.len();
        for (k, e) in p.proj.iter().enumerate() {
            match e {
                PElem::Deref => {
                    let v = st.get(&self.lower.consts, base, &path)?;
                    match v {
                        Val::Ptr(pv) => {
                            base = pv.base;
                            path = pv.path.clone();
                            meta = pv.meta;
                        }
                        Val::Box(..) => {
                            path.push(Proj::Content);
                            meta = Meta::None;
                        }
                        Val::Str(_) => {
                            if k + 1 == n {
                                return Ok(Loc::Direct(v.clone()));
                            }
                            return unsup("projection into str");
                        }
                        Val::Undef => return unsup("deref of undefined"),
                        v => return unsup(format!("deref of {}", kind(v))),
                    }
                }
                PElem::Field(i) => {
                    path.push(match variant.take() {
                        Some(v) => Proj::VField(v, *i),
                        None => Proj::Field(*i),
                    });
                    meta = Meta::None;
                }
                PElem::Downcast(v) => variant = Some(*v),
                PElem::Index(l) => {
                    let iv = &st.frames[depth as usize].locals[*l as usize];
                    let i = self.const_usize(st, iv)?;
                    let ph = self.phys(st, base, &path, meta, i, false)?;
                    path.push(Proj::Index(ph));
                    meta = Meta::None;
                }
                PElem::ConstIndex(i, from_end) => {
                    let ph = self.phys(st, base, &path, meta, *i as usize, *from_end)?;
                    path.push(Proj::Index(ph));
                    meta = Meta::None;
                }
                PElem::Subslice(a, b, from_end) => {
                    let v = st.get(&self.lower.consts, base, &path)?;
                    let Val::Seq(s) = v else { return unsup("subslice") };
                    let (s0, len) = match meta {
                        Meta::Slice(s0, l) => (s0, l),
                        _ => (0, s.items.len() as u32),
                    };
                    if s.guards.is_empty() {
                        let end = if *from_end { len - *b as u32 } else { *b as u32 };
                        meta = Meta::Slice(s0 + *a as u32, end - *a as u32);
                    } else {
                        let mut pi = vec![];
                        for i in s0 as usize..(s0 + len) as usize {
                            if st.decide(s.guards[i])? {
                                pi.push(i);
                            }
                        }
                        let end = if *from_end { pi.len() - *b as usize } else { *b as usize };
                        let (x, y) = crate::nat_coll::phys_range(&pi, s0 as usize, *a as usize, end);
                        meta = Meta::Slice(x as u32, (y - x) as u32);
                    }
                }
            }
        }
        Ok(Loc::Mem(base, path, meta))
    }

    /// logical -> physical index
    pub fn phys(&self, st: &State, base: Base, path: &[Proj], meta: Meta, i: usize, from_end: bool) -> R<u32> {
        let v = st.get(&self.lower.consts, base, path)?;
        let Val::Seq(s) = v else { return unsup(format!("index of {}", kind(v))) };
        let (a, b) = match meta {
            Meta::Slice(a, l) => (a as usize, (a + l) as usize),
            _ => (0, s.items.len()),
        };
        if s.guards.is_empty() {
            let k = if from_end { b as i64 - i as i64 } else { (a + i) as i64 };
            if k < a as i64 || k >= b as i64 {
                return unsup("index out of range");
            }
            return Ok(k as u32);
        }
        let mut n = if from_end { i as i64 - 1 } else { i as i64 };
        let order: Vec<usize> = if from_end { (a..b).rev().collect() } else { (a..b).collect() };
        for k in order {
            if st.decide(s.guards[k])? {
                if n == 0 {
                    return Ok(k as u32);
                }
                n -= 1;
            }
        }
        unsup("guarded index out of range")
    }

    pub fn const_usize(&self, st: &State, v: &Val) -> R<usize> {
        match st.res(v)? {
            Val::Int(t) => Ok(self.concretize(st, *t)? as usize),
            v => unsup(format!("usize from {}", kind(v))),
        }
    }
    pub fn concretize(&self, st: &State, t: T) -> R<u128> {
        if let Some(x) = term::as_const(t) {
            return Ok(x);
        }
        let s = st.lits.simp(t);
        if let Some(x) = term::as_const(s) {
            return Ok(x);
        }
        let w = term::width(t);
        if w == 0 {
            return Err(Ex::Split(t));
        }
        let v = st.model.eval(t);
        let c = term::eq(t, term::c(w, v));
        match st.decide(c) {
            Ok(true) => Ok(v),
            _ => Err(Ex::Split(c)),
        }
    }

    pub fn read(&self, st: &State, l: &Loc) -> R<Val> {
        match l {
            Loc::Mem(b, p, _) => Ok(st.get(&self.lower.consts, *b, p)?.clone()),
            Loc::Direct(v) => Ok(v.clone()),
        }
    }
    /// like read, but leaves a top-level Ite in place
    fn read_raw(&self, st: &State, l: &Loc) -> R<Val> {
        match l {
            Loc::Mem(b, p, _) => {
                if p.is_empty() {
                    let v = unsafe { &*st.base(*b, &self.lower.consts)? };
                    return Ok(v.clone());
                }
                let parent = st.get(&self.lower.consts, *b, &p[..p.len() - 1])?;
                Ok(st.step_in(parent, p[p.len() - 1])?.clone())
            }
            Loc::Direct(v) => Ok(v.clone()),
        }
    }
    fn opd(&self, st: &State, o: &Opd) -> R<Val> {
        match o {
            Opd::Copy(p) | Opd::Move(p) => {
                let l = self.local_loc(st, p)?;
                self.read_raw(st, &l)
            }
            Opd::Const(v) => Ok(v.clone()),
            Opd::ConstErr(e) => unsup(format!("const: {}", e)),
        }
    }
    fn int(&self, st: &State, v: &Val) -> R<T> {
        match v {
            Val::Int(t) => Ok(*t),
            Val::Ite(c, a, b) => {
                let (x, y) = (self.int(st, a)?, self.int(st, b)?);
                Ok(term::ite(*c, x, y))
            }
            v => unsup(format!("int from {}", kind(v))),
        }
    }
    fn clear_move(&self, st: &mut State, o: &Opd) {
        if let Opd::Move(p) = o {
            if p.proj.iter().all(|e| matches!(e, PElem::Field(_) | PElem::Downcast(_))) {
                let depth = (st.frames.len() - 1) as u32;
                if p.proj.is_empty() {
                    st.top_mut().locals[p.local as usize] = Val::Undef;
                } else if let Ok(Loc::Mem(b, path, _)) = self.place_at(st, depth, p) {
                    let _ = st.set(b, &path, Val::Undef);
                }
            }
        }
    }
    /// decide everything that writing to `p` depends on, before the step has an effect
    fn ready(&self, st: &State, depth: usize, p: &Place) -> R<()> {
        if p.proj.is_empty() {
            return Ok(());
        }
        if let Loc::Mem(b, path, _) = self.place_at(st, depth as u32, p)? {
            if !path.is_empty() {
                let mut v: &Val = unsafe { &*st.base(b, &self.lower.consts)? };
                for q in &path[..path.len() - 1] {
                    v = st.res(v)?;
                    match st.step_in(v, *q) {
                        Ok(x) => v = x,
                        Err(Ex::Split(c)) => return Err(Ex::Split(c)),
                        Err(_) => return Ok(()),
                    }
                }
                st.res(v)?;
            }
        }
        Ok(())
    }
    fn write(&mut self, st: &mut State, p: &Place, v: Val) -> R<()> {
        if p.proj.is_empty() {
            st.top_mut().locals[p.local as usize] = v;
            return Ok(());
        }
        match self.local_loc(st, p)? {
            Loc::Mem(b, path, _) => st.set(b, &path, v),
            Loc::Direct(_) => unsup("write to str"),
        }
    }

    pub fn seq_len(&self, st: &State, pv: &PtrV) -> R<T> {
        let v = st.get(&self.lower.consts, pv.base, &pv.path)?;
        match v {
            Val::Seq(s) => Ok(match pv.meta {
                Meta::Slice(a, l) => s.count(a as usize, (a + l) as usize),
                _ => s.count(0, s.items.len()),
            }),
            Val::Str(s) => Ok(s.len_bytes()),
            v => unsup(format!("len of {}", kind(v))),
        }
    }

    fn rvalue(&mut self, st: &State, rv: &Rv) -> R<Val> {
        match rv {
            Rv::Use(o) => self.opd(st, o),
            Rv::Ref(p) => match self.local_loc(st, p)? {
                Loc::Mem(b, path, meta) => Ok(Val::ptr(b, path, meta)),
                Loc::Direct(v) => Ok(v),
            },
            Rv::BoxAlias(p) => {
                let l = self.local_loc(st, p)?;
                let v = self.read(st, &l)?;
                match (&v, l) {
                    (Val::Box(_, t), Loc::Mem(b, mut path, _)) => {
                        let meta = t.map(Meta::Dyn).unwrap_or(Meta::None);
                        path.push(Proj::Content);
                        Ok(Val::ptr(b, path, meta))
                    }
                    _ => Ok(v.clone()),
                }
            }
            Rv::BoxDeref(p) => {
                // *(local box) where the local may hold an alias pointer
                let l = self.local_loc(st, p)?;
                let v = self.read(st, &l)?;
                match (&v, l) {
                    (Val::Box(_, t), Loc::Mem(b, mut path, _)) => {
                        path.push(Proj::Content);
                        let meta = t.map(Meta::Dyn).unwrap_or(Meta::None);
                        Ok(Val::ptr(b, path, meta))
                    }
                    (Val::Ptr(_) | Val::Str(_), _) => Ok(v),
                    (v, _) => unsup(format!("box deref of {}", kind(v))),
                }
            }
            Rv::Cast(k, o, from, to) => {
                let v = self.opd(st, o)?;
                self.cast(st, *k, v, *from, *to)
            }
            Rv::Bin(op, a, b, ty) => {
                let (x, y) = (self.opd(st, a)?, self.opd(st, b)?);
                self.binop(st, *op, x, y, *ty)
            }
            Rv::Un(op, o, ty) => {
                let v = self.opd(st, o)?;
                match op {
                    UnOp::Not => {
                        let t = self.int(st, &v)?;
                        let w = term::width(t);
                        Ok(Val::Int(if w == 0 { term::not(t) } else { term::bin(Op::Xor, t, term::c(w, !0)) }))
                    }
                    UnOp::Neg => {
                        let t = self.int(st, &v)?;
                        if matches!(ty.kind(), TyKind::Float(_)) {
                            let w = term::width(t);
                            return Ok(Val::Int(term::bin(Op::Xor, t, term::c(w, 1u128 << (w - 1)))));
                        }
                        let w = term::width(t);
                        Ok(Val::Int(term::bin(Op::Sub, term::c(w, 0), t)))
                    }
                    UnOp::PtrMetadata => match st.res(&v)? {
                        Val::Ptr(p) => Ok(Val::Int(self.seq_len(st, p)?)),
                        Val::Str(s) => Ok(Val::Int(s.len_bytes())),
                        v => unsup(format!("metadata of {}", kind(v))),
                    },
                }
            }
            Rv::Disc(p, ty) => {
                let l = self.local_loc(st, p)?;
                let v = self.read(st, &l)?;
                self.discriminant(st, &v, *ty)
            }
            Rv::Agg(ops) => {
                let mut v = Vec::with_capacity(ops.len());
                for o in ops {
                    v.push(self.opd(st, o)?);
                }
                Ok(Val::agg(v))
            }
            Rv::Variant(i, ops) => {
                let mut v = Vec::with_capacity(ops.len());
                for o in ops {
                    v.push(self.opd(st, o)?);
                }
                Ok(Val::variant(*i, v))
            }
            Rv::Array(ops) => {
                let mut v = Vec::with_capacity(ops.len());
                for o in ops {
                    v.push(self.opd(st, o)?);
                }
                Ok(Val::seq(v))
            }
            Rv::Repeat(o, n) => {
                let v = self.opd(st, o)?;
                if *n > 4096 {
                    return unsup("large repeat");
                }
                Ok(Val::seq(vec![v; *n as usize]))
            }
            Rv::RawPtr(a, _m) => self.opd(st, a),
            Rv::Unsupported(s) => unsup(s.clone()),
        }
    }

    pub fn discriminant(&self, st: &State, v: &Val, ty: Ty) -> R<Val> {
        let tcx = self.lower.tcx;
        match st.res(v)? {
            Val::Enum(e) => {
                let dty = ty.discriminant_ty(tcx);
                let w = int_width(dty).unwrap();
                let TyKind::Adt(def, _) = ty.kind() else { return unsup("disc of non-adt") };
                let n = def.variants().len();
                let ds: Vec<u128> = (0..n)
                    .map(|i| ty.discriminant_for_variant(tcx, rustc_abi::VariantIdx::from_usize(i)).unwrap().val)
                    .collect();
                if ds.iter().enumerate().all(|(i, d)| i as u128 == *d) {
                    return Ok(Val::Int(if w >= 32 { term::zext(w, e.disc) } else { term::trunc(w, e.disc) }));
                }
                let mut r = term::c(w, ds[n - 1]);
                for i in (0..n - 1).rev() {
                    r = term::ite(term::eq(e.disc, term::c(32, i as u128)), term::c(w, ds[i]), r);
                }
                Ok(Val::Int(r))
            }
            Val::Undef => unsup("discriminant of undefined"),
            v => unsup(format!("discriminant of {} ({})", kind(v), ty)),
        }
    }

    fn cast(&mut self, st: &State, k: CastK, v: Val, from: Ty, to: Ty) -> R<Val> {
        let tcx = self.lower.tcx;
        match k {
            CastK::Int => {
                let v = if let TyKind::Adt(d, _) = from.kind() {
                    if d.is_enum() {
                        self.discriminant(st, &v, from)?
                    } else {
                        v
                    }
                } else {
                    v
                };
                let t = self.int(st, &v)?;
                let (wf, Some(wt)) = (term::width(t), int_width(to)) else { return unsup("int cast") };
                let signed = matches!(from.kind(), TyKind::Int(_));
                Ok(Val::Int(if wt == wf {
                    t
                } else if wt < wf {
                    if wt == 0 {
                        return unsup("cast to bool");
                    }
                    term::trunc(wt, t)
                } else if signed {
                    term::sext(wt, t)
                } else {
                    term::zext(wt, t)
                }))
            }
            CastK::Ptr => {
                let pt = |t: Ty| match t.kind() {
                    TyKind::RawPtr(x, _) | TyKind::Ref(_, x, _) => Some(*x),
                    _ => None,
                };
                let (Some(a), Some(b), Val::Ptr(p)) = (pt(from), pt(to), st.res(&v)?) else { return Ok(v) };
                if p.base == Base::Dangling {
                    return Ok(v);
                }
                let many = |t: Ty| matches!(t.kind(), TyKind::Slice(_) | TyKind::Array(..));
                match (a.kind(), b.kind()) {
                    // slice -> first element
                    (TyKind::Slice(_) | TyKind::Array(..), _) if !many(b) && b.is_sized(tcx, env()) => {
                        let Ok(Val::Seq(s)) = st.get(&self.lower.consts, p.base, &p.path) else { return Ok(v) };
                        let (x, y) = match p.meta {
                            Meta::Slice(x, l) => (x, x + l),
                            _ => (0, s.items.len() as u32),
                        };
                        let mut i = x;
                        while i < y && !st.decide(s.guard(i as usize))? {
                            i += 1;
                        }
                        let mut path = p.path.clone();
                        path.push(Proj::Index(i));
                        Ok(Val::ptr(p.base, path, Meta::None))
                    }
                    // element -> array of the elements from here on
                    (_, TyKind::Array(el, n)) if !many(a) => match (p.path.last(), n.try_to_target_usize(tcx)) {
                        (Some(Proj::Index(i)), Some(n)) if *el == a => {
                            let path = p.path[..p.path.len() - 1].to_vec();
                            match st.get(&self.lower.consts, p.base, &path)? {
                                Val::Seq(s) if s.guards.is_empty() => Ok(Val::ptr(p.base, path, Meta::Slice(*i, n as u32))),
                                _ => unsup("array in a guarded sequence"),
                            }
                        }
                        _ => Ok(v),
                    },
                    _ => Ok(v),
                }
            }
            CastK::Unsize => self.unsize(st, v, from, to),
            CastK::Reify => {
                if let TyKind::FnDef(did, args) = from.kind() {
                    match ty::Instance::resolve_for_fn_ptr(tcx, env(), *did, args.no_bound_vars().unwrap()) {
                        Some(i) => Ok(Val::Fn(i)),
                        None => unsup("reify"),
                    }
                } else {
                    unsup("reify non fndef")
                }
            }
            CastK::ClosureFn => {
                if let TyKind::Closure(did, args) = from.kind() {
                    Ok(Val::Fn(ty::Instance::resolve_closure(tcx, *did, args, ty::ClosureKind::FnOnce)))
                } else {
                    unsup("closure fn")
                }
            }
            CastK::Transmute => {
                if let (Some(a), Some(b)) = (int_width(from), int_width(to)) {
                    let t = self.int(st, &v)?;
                    if a == b {
                        return Ok(Val::Int(t));
                    }
                    if a == 0 {
                        return Ok(Val::Int(term::zext(b, t)));
                    }
                    return unsup(format!("transmute {} to {}", from, to));
                }
                Ok(v)
            }
            CastK::Other => {
                if let (TyKind::Float(_), TyKind::Float(_)) = (from.kind(), to.kind()) {
                    if from == to {
                        return Ok(v);
                    }
                }
                if let (Some(_), TyKind::Float(_)) = (int_width(from), to.kind()) {
                    let t = self.int(st, &v)?;
                    if let Some(x) = term::as_const(t) {
                        let f = if matches!(from.kind(), TyKind::Int(_)) {
                            term::sext_to_i128(x, term::width(t)) as f64
                        } else {
                            x as f64
                        };
                        if int_width(to) == Some(64) {
                            return Ok(Val::Int(term::c(64, f.to_bits() as u128)));
                        }
                    }
                }
                unsup(format!("cast {} to {}", from, to))
            }
        }
    }

    fn unsize(&mut self, st: &State, v: Val, from: Ty, to: Ty) -> R<Val> {
        let tcx = self.lower.tcx;
        let (fi, ti) = match (from.kind(), to.kind()) {
            (TyKind::Ref(_, a, _) | TyKind::RawPtr(a, _), TyKind::Ref(_, b, _) | TyKind::RawPtr(b, _)) => (*a, *b),
            (TyKind::Adt(d, a), TyKind::Adt(_, b)) => {
                let _ = d;
                (a.type_at(0), b.type_at(0))
            }
            _ => return unsup(format!("unsize {} to {}", from, to)),
        };
        let (fi, ti) = {
            // look through wrappers
            let t = tcx.struct_lockstep_tails_for_codegen(fi, ti, env());
            t
        };
        match (fi.kind(), ti.kind()) {
            (TyKind::Array(_, n), TyKind::Slice(_)) => match st.res(&v)? {
                Val::Ptr(p) => {
                    let n = n.try_to_target_usize(tcx).unwrap_or(0);
                    Ok(Val::Ptr(Rc::new(PtrV { base: p.base, path: p.path.clone(), meta: Meta::Slice(0, n as u32) })))
                }
                x => Ok(x.clone()),
            },
            (TyKind::Dynamic(..), TyKind::Dynamic(..)) => Ok(v),
            (_, TyKind::Dynamic(..)) => match st.res(&v)? {
                Val::Ptr(p) => Ok(Val::Ptr(Rc::new(PtrV { base: p.base, path: p.path.clone(), meta: Meta::Dyn(fi) }))),
                Val::Box(b, _) => Ok(Val::Box(b.clone(), Some(fi))),
                // `&str as &dyn Trait` can only come from &&str; a Str here stands for itself
                x => Ok(x.clone()),
            },
            _ => unsup(format!("unsize {} to {}", fi, ti)),
        }
    }

    fn binop(&mut self, st: &State, op: BinOp, a: Val, b: Val, ty: Ty) -> R<Val> {
        use BinOp::*;
        if let TyKind::Float(_) = ty.kind() {
            let (x, y) = (self.int(st, &a)?, self.int(st, &b)?);
            if let (Some(p), Some(q), 64) = (term::as_const(x), term::as_const(y), term::width(x)) {
                let (p, q) = (f64::from_bits(p as u64), f64::from_bits(q as u64));
                let f = |r: f64| Ok(Val::Int(term::c(64, r.to_bits() as u128)));
                return match op {
                    Add => f(p + q),
                    Sub => f(p - q),
                    Mul => f(p * q),
                    Div => f(p / q),
                    Eq => Ok(Val::bool(p == q)),
                    Ne => Ok(Val::bool(p != q)),
                    Lt => Ok(Val::bool(p < q)),
                    Le => Ok(Val::bool(p <= q)),
                    Gt => Ok(Val::bool(p > q)),
                    Ge => Ok(Val::bool(p >= q)),
                    _ => unsup("float op"),
                };
            }
            return unsup("symbolic float");
        }
        if let (Val::Ptr(p), Val::Ptr(q)) = (&a, &b) {
            return match op {
                Eq => Ok(Val::bool(p == q)),
                Ne => Ok(Val::bool(p != q)),
                _ => unsup("pointer arithmetic"),
            };
        }
        if ty.is_unit() {
            return Ok(Val::bool(matches!(op, Eq | Le | Ge)));
        }
        let (x, mut y) = (self.int(st, &a)?, self.int(st, &b)?);
        let w = term::width(x);
        let signed = matches!(ty.kind(), TyKind::Int(_));
        let lt = |p, q| {
            if w == 0 {
                term::and(term::not(p), q)
            } else if signed {
                term::slt(p, q)
            } else {
                term::ult(p, q)
            }
        };
        let i = |t| Ok(Val::Int(t));
        match op {
            Eq => return i(term::eq(x, y)),
            Ne => return i(term::not(term::eq(x, y))),
            Lt => return i(lt(x, y)),
            Gt => return i(lt(y, x)),
            Le => return i(term::not(lt(y, x))),
            Ge => return i(term::not(lt(x, y))),
            Cmp => {
                let d = term::ite(lt(x, y), term::c(32, 0), term::ite(term::eq(x, y), term::c(32, 1), term::c(32, 2)));
                return Ok(Val::Enum(Rc::new(EnumV { disc: d, pays: vec![] })));
            }
            _ => {}
        }
        if matches!(op, Shl | Shr | ShlUnchecked | ShrUnchecked) {
            let wy = term::width(y);
            y = if wy < w { term::zext(w, y) } else { term::trunc(w, y) };
            y = term::bin(Op::And, y, term::c(w, (w - 1) as u128));
        }
        let ov = |r: T, o: T| Ok(Val::agg(vec![Val::Int(r), Val::Int(o)]));
        match op {
            Add | AddUnchecked => i(term::bin(Op::Add, x, y)),
            Sub | SubUnchecked => i(term::bin(Op::Sub, x, y)),
            Mul | MulUnchecked => i(term::bin(Op::Mul, x, y)),
            Div => i(term::bin(if signed { Op::SDiv } else { Op::UDiv }, x, y)),
            Rem => i(term::bin(if signed { Op::SRem } else { Op::URem }, x, y)),
            BitAnd => i(term::bin(Op::And, x, y)),
            BitOr => i(term::bin(Op::Or, x, y)),
            BitXor => i(term::bin(Op::Xor, x, y)),
            Shl | ShlUnchecked => i(term::bin(Op::Shl, x, y)),
            Shr | ShrUnchecked => i(term::bin(if signed { Op::AShr } else { Op::LShr }, x, y)),
            AddWithOverflow => {
                let r = term::bin(Op::Add, x, y);
                if signed {
                    let (e, f) = (term::sext(w * 2, x), term::sext(w * 2, y));
                    let wide = term::bin(Op::Add, e, f);
                    ov(r, term::not(term::eq(wide, term::sext(w * 2, r))))
                } else {
                    // no overflow when bounds rule it out
                    let (_, h1) = term::bounds(x, 12);
                    let (_, h2) = term::bounds(y, 12);
                    if w < 128 && h1 + h2 <= term::mask(w) {
                        return ov(r, term::FALSE);
                    }
                    ov(r, term::ult(r, x))
                }
            }
            SubWithOverflow => {
                let r = term::bin(Op::Sub, x, y);
                if signed {
                    let (e, f) = (term::sext(w * 2, x), term::sext(w * 2, y));
                    let wide = term::bin(Op::Sub, e, f);
                    ov(r, term::not(term::eq(wide, term::sext(w * 2, r))))
                } else {
                    ov(r, term::ult(x, y))
                }
            }
            MulWithOverflow => {
                let r = term::bin(Op::Mul, x, y);
                if w > 64 {
                    return unsup("wide mul");
                }
                let (e, f, g) = if signed {
                    (term::sext(w * 2, x), term::sext(w * 2, y), term::sext(w * 2, r))
                } else {
                    (term::zext(w * 2, x), term::zext(w * 2, y), term::zext(w * 2, r))
                };
                ov(r, term::not(term::eq(term::bin(Op::Mul, e, f), g)))
            }
            o => unsup(format!("binop {:?}", o)),
        }
    }

    // ------------------------------------------------------------ solver

    pub fn query(&mut self, pc: &[T], extra: T) -> (Res, Option<Rc<Model>>) {
        let mut key: Vec<T> = pc.to_vec();
        if extra != term::TRUE {
            key.push(extra);
        }
        key.sort();
        key.dedup();
        if let Some(r) = self.qcache.get(&key) {
            return r.clone();
        }
        // a recent model may already witness satisfiability
        for i in (0..self.pool.len()).rev() {
            let m = &self.pool[i];
            if m.eval(extra) != 0 && key.iter().all(|t| m.eval(*t) != 0) {
                let m = self.pool.remove(i);
                self.pool.push(m.clone());
                self.pool_hits += 1;
                let out = (Res::Sat, Some(m));
                self.qcache.insert(key, out.clone());
                return out;
            }
        }
        let (r, m) = self.smt.check(&key);
        if r == Res::Unknown {
            self.timeouts += 1;
        }
        let out = (r, m.map(Model::new));
        if let Some(m) = &out.1 {
            if self.pool.len() >= 120 {
                self.pool.remove(0);
            }
            self.pool.push(m.clone());
        }
        self.qcache.insert(key, out.clone());
        out
    }

    /// Some(model) when pc ∧ c may hold (unknown counts as feasible)
    pub fn feasible(&mut self, st: &State, c: T) -> Option<Rc<Model>> {
        match st.known(c) {
            Some(true) => return Some(st.model.clone()),
            Some(false) => return None,
            None => {}
        }
        if st.model.eval(c) != 0 {
            return Some(st.model.clone());
        }
        match self.query(&st.pc, c) {
            (Res::Sat, m) => m,
            (Res::Unsat, _) => None,
            (Res::Unknown, _) => {
                *self.unsup.entry("solver returned unknown".into()).or_default() += 1;
                Some(st.model.clone())
            }
        }
    }
    pub fn assume(&self, st: &mut State, c: T, m: Rc<Model>, implied: bool) {
        if c == term::TRUE {
            return;
        }
        if st.known(c) != Some(true) {
            Rc::make_mut(&mut st.lits).add(c);
            if !implied {
                st.pc.push(c);
            }
        }
        st.model = m;
    }

    // ------------------------------------------------------------ stepping

    pub fn push_frame(&mut self, st: &mut State, body: Rc<Body>, args: Vec<Val>, dest: Rc<Place>, ret: Option<usize>) -> R<()> {
        if st.frames.len() > 400 {
            return unsup("stack depth");
        }
        let mut locals = vec![Val::Undef; body.locals.len()];
        if args.len() != body.nargs {
            return unsup(format!("arity {} vs {} for {}", args.len(), body.nargs, body.name));
        }
        for (i, a) in args.into_iter().enumerate() {
            locals[i + 1] = a;
        }
        self.uid += 1;
        let e = self.fns_seen.entry(body.name.clone()).or_insert((body.blocks.len(), body.local_crate));
        e.0 = body.blocks.len();
        if self.cfg.trace {
            eprintln!("{}> {}", " ".repeat(st.frames.len()), body.name);
        }
        st.frames.push(Rc::new(Frame { uid: self.uid, body, locals, bb: 0, stmt: 0, dest, ret }));
        Ok(())
    }

    fn unwind(&mut self, st: &mut State, msg: &str) -> bool {
        // true when caught
        self.stats.panics += 1;
        if self.cfg.trace {
            eprintln!("PANIC {} @ {}", msg, self.stack(st));
        }
        while let Some(f) = st.frames.last() {
            let is_catch = f.body.is_catch;
            let (dest, ret) = (f.dest.clone(), f.ret);
            st.frames.pop();
            if is_catch {
                let _ = msg;
                let v = Val::err(Val::unit());
                if self.write(st, &dest, v).is_err() {
                    return false;
                }
                let f = st.top_mut();
                f.bb = ret.unwrap();
                f.stmt = 0;
                return true;
            }
        }
        false
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        self.stats.steps += 1;
        let fr = st.top();
        let body = fr.body.clone();
        let (bb, k) = (fr.bb, fr.stmt);
        let block = &body.blocks[bb];
        if k < block.stmts.len() {
            match &block.stmts[k] {
                St::Assign(p, rv) => {
                    let v = self.rvalue(st, rv)?;
                    self.ready(st, st.frames.len() - 1, p)?;
                    match rv {
                        Rv::Use(o) | Rv::Cast(_, o, _, _) => self.clear_move(st, o),
                        Rv::Agg(os) | Rv::Variant(_, os) | Rv::Array(os) => os.iter().for_each(|o| self.clear_move(st, o)),
                        _ => {}
                    }
                    self.write(st, p, v)?;
                }
                St::SetDisc(p, vi) => {
                    let l = self.local_loc(st, p)?;
                    let cur = self.read(st, &l)?;
                    let v = match cur {
                        Val::Enum(e) => Val::Enum(Rc::new(EnumV { disc: term::c(32, *vi as u128), pays: e.pays.clone() })),
                        _ => Val::variant(*vi, vec![]),
                    };
                    self.write(st, p, v)?;
                }
                St::Dead(l) => st.top_mut().locals[*l as usize] = Val::Undef,
                St::Nop => {}
                St::Unsupported(s) => return unsup(s.clone()),
            }
            st.top_mut().stmt += 1;
            return Ok(());
        }
        match &block.term {
            Tm::Goto(b) => {
                let f = st.top_mut();
                f.bb = *b;
                f.stmt = 0;
                Ok(())
            }
            Tm::Switch(o, targets, other) => {
                let v = self.opd(st, o)?;
                let t = self.int(st, &v)?;
                let t = st.lits.simp(t);
                let w = term::width(t);
                for (k, b) in targets {
                    let c = if w == 0 {
                        if *k == 0 {
                            term::not(t)
                        } else {
                            t
                        }
                    } else {
                        term::eq(t, term::c(w, *k))
                    };
                    if st.decide(c)? {
                        let f = st.top_mut();
                        f.bb = *b;
                        f.stmt = 0;
                        return Ok(());
                    }
                }
                let f = st.top_mut();
                f.bb = *other;
                f.stmt = 0;
                Ok(())
            }
            Tm::Return => {
                if st.frames.len() > 1 {
                    self.ready(st, st.frames.len() - 2, &st.top().dest)?;
                }
                let f = st.frames.pop().unwrap();
                let v = f.locals[0].clone();
                if st.frames.is_empty() {
                    st.result = Some(v);
                    return Ok(());
                }
                if self.cfg.trace {
                    eprintln!("{}< {}", " ".repeat(st.frames.len()), f.body.name);
                }
                let dest = f.dest.clone();
                match f.ret {
                    Some(b) => {
                        drop(f);
                        self.write(st, &dest, v)?;
                        let f = st.top_mut();
                        f.bb = b;
                        f.stmt = 0;
                        Ok(())
                    }
                    None => unsup("return from diverging call"),
                }
            }
            Tm::Unreachable => Err(Ex::Unsup("reached unreachable".into())),
            Tm::Assert { cond, expected, msg, target } => {
                let v = self.opd(st, cond)?;
                let mut c = self.int(st, &v)?;
                if !*expected {
                    c = term::not(c);
                }
                if st.decide(c)? {
                    let f = st.top_mut();
                    f.bb = *target;
                    f.stmt = 0;
                    Ok(())
                } else {
                    Err(Ex::Panic(msg.clone()))
                }
            }
            Tm::Call { callee, args, dest, target, spread } => {
                let mut vals = Vec::with_capacity(args.len() + 1);
                for a in args {
                    vals.push(self.opd(st, a)?);
                }
                let inst = match callee {
                    Callee::Static(i) => *i,
                    Callee::Dyn(o) => {
                        let f = self.opd(st, o)?;
                        match st.res(&f)? {
                            Val::Fn(i) => {
                                vals = self.dyn_args(*i, vals);
                                *i
                            }
                            v => return unsup(format!("call of {}", kind(v))),
                        }
                    }
                };
                if *spread {
                    if let Some(Val::Agg(t)) = vals.pop() {
                        vals.extend(t.iter().cloned());
                    } else {
                        return unsup("spread of non tuple");
                    }
                }
                self.call(st, inst, vals, Rc::new(dest.clone()), *target, args, 0)
            }
            Tm::Unsupported(s) => unsup(s.clone()),
        }
    }

    /// calling convention for a function pointer to `i`
    fn dyn_args(&self, i: Inst, vals: Vec<Val>) -> Vec<Val> {
        match i.def {
            ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => vec![Val::unit(), Val::agg(vals)],
            ty::InstanceKind::Item(d) if self.lower.tcx.is_closure_like(d) => {
                let mut v = vec![Val::unit()];
                v.extend(vals);
                v
            }
            _ => vals,
        }
    }

    pub fn callee(&mut self, inst: Inst) -> Rc<Callee2> {
        if let Some(c) = self.callees.get(&inst) {
            return c.clone();
        }
        let c = Rc::new(self.make_callee(inst));
        self.callees.insert(inst, c.clone());
        c
    }
    fn make_callee(&mut self, inst: Inst) -> Callee2 {
        let tcx = self.lower.tcx;
        let name = match inst.def {
            ty::InstanceKind::Item(d) | ty::InstanceKind::Intrinsic(d) | ty::InstanceKind::Virtual(d, _) => self.lower.path(d),
            _ => format!("{:?}", inst.def),
        };
        if let ty::InstanceKind::Virtual(d, _) = inst.def {
            return Callee2 { name, kind: Kind::Virtual(d) };
        }
        if let ty::InstanceKind::Shim(ty::ShimKind::DropGlue(..)) = inst.def {
            return Callee2 { name, kind: Kind::Native(crate::natives::unit_fn) };
        }
        if let ty::InstanceKind::Shim(ty::ShimKind::Clone(..)) = inst.def {
            return Callee2 { name, kind: Kind::Native(crate::natives::clone_fn) };
        }
        let user = {
            let cn = tcx.crate_name(inst.def_id().krate);
            matches!(cn.as_str(), "jst" | "harness") && !matches!(inst.def, ty::InstanceKind::Shim(_))
        };
        if user {
            return match self.lower.body(inst) {
                Ok(b) => Callee2 { name, kind: Kind::Body(Rc::new(b)) },
                Err(e) => Callee2 { kind: Kind::Bad(e), name },
            };
        }
        if let Some(f) = crate::natives::lookup(&name) {
            return Callee2 { name, kind: Kind::Native(f) };
        }
        if let Some((shim, drop_first)) = crate::natives::redirect(&name) {
            match self.shims.get(shim) {
                Some(did) => {
                    let n = tcx.generics_of(*did).count();
                    let args: Vec<_> = inst.args.iter().skip(drop_first).filter(|a| a.as_region().is_none()).collect();
                    let g = tcx.generics_of(*did);
                    let mut it = args.into_iter();
                    let mut full = vec![];
                    for i in 0..n {
                        let p = g.param_at(i, tcx);
                        if matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                            full.push(tcx.lifetimes.re_erased.into());
                        } else {
                            match it.next() {
                                Some(a) => full.push(a),
                                None => return Callee2 { kind: Kind::Bad(format!("shim arity {}", shim)), name },
                            }
                        }
                    }
                    let args = tcx.mk_args(&full);
                    match self.lower.resolve(*did, args) {
                        Some(i) => return Callee2 { name, kind: Kind::Redirect(i) },
                        None => return Callee2 { kind: Kind::Bad(format!("shim resolve {}", shim)), name },
                    }
                }
                None => return Callee2 { kind: Kind::Bad(format!("missing shim {}", shim)), name },
            }
        }
        // opaque iterators: use the provided methods of Iterator / DoubleEndedIterator
        if let Some(i) = self.iter_default(inst, &name) {
            return Callee2 { name, kind: Kind::Redirect(i) };
        }
        if let Some(i) = self.zip_base(inst, &name) {
            return Callee2 { name, kind: Kind::Redirect(i) };
        }
        if let ty::InstanceKind::Intrinsic(d) = inst.def {
            // intrinsics with a fallback body
            if !tcx.is_mir_available(d) {
                return Callee2 { kind: Kind::Bad(format!("intrinsic {}", name)), name };
            }
            let it = ty::Instance { def: ty::InstanceKind::Item(d), args: inst.args };
            return match self.lower.body(it) {
                Ok(b) => Callee2 { name, kind: Kind::Body(Rc::new(b)) },
                Err(e) => Callee2 { kind: Kind::Bad(e), name },
            };
        }
        match self.lower.body(inst) {
            Ok(b) => Callee2 { name, kind: Kind::Body(Rc::new(b)) },
            Err(e) => Callee2 { kind: Kind::Bad(e), name },
        }
    }

    /// `<slice::Iter as Iterator>::fold` and friends -> the trait's default body
    fn iter_default(&mut self, inst: Inst, name: &str) -> Option<Inst> {
        let tcx = self.lower.tcx;
        let ty::InstanceKind::Item(did) = inst.def else { return None };
        let (tr, m) = crate::natives::iter_impl(name)?;
        let imp = tcx.impl_of_assoc(did)?;
        let trait_ref = tcx.impl_trait_ref(imp).instantiate(tcx, inst.args).skip_norm_wip();
        let trait_did = trait_ref.def_id;
        let _ = tr;
        let item = tcx.associated_items(trait_did).in_definition_order().find(|i| i.name().as_str() == m)?.def_id;
        if !tcx.is_mir_available(item) {
            return None;
        }
        // args: trait args ++ method's own args
        let impl_n = tcx.generics_of(imp).count();
        let own: Vec<_> = inst.args.iter().skip(impl_n).collect();
        let mut full: Vec<ty::GenericArg<'static>> = trait_ref.args.iter().collect();
        full.extend(own);
        let args = tcx.mk_args(&full);
        let args = tcx.normalize_erasing_regions(env(), ty::Unnormalized::new(args));
        Some(ty::Instance { def: ty::InstanceKind::Item(item), args })
    }

    /// iterators have no random access here: take the general implementation of a specialised one
    fn zip_base(&mut self, inst: Inst, name: &str) -> Option<Inst> {
        if !name.contains("core::iter::adapters::zip::ZipImpl<") && !name.contains("core::iter::adapters::zip::SpecFold") {
            return None;
        }
        let tcx = self.lower.tcx;
        let ty::InstanceKind::Item(did) = inst.def else { return None };
        let imp = tcx.impl_of_assoc(did)?;
        let special = |i: rustc_hir::def_id::DefId| {
            let p = format!("{:?}", tcx.param_env(i).caller_bounds().collect::<Vec<_>>());
            p.contains("TrustedRandomAccess") || p.contains("TrustedLen")
        };
        if !special(imp) {
            return None;
        }
        let tr = tcx.impl_trait_ref(imp).skip_binder().def_id;
        let base = tcx.all_impls(tr).find(|i| !special(*i))?;
        let item = tcx.associated_items(base).in_definition_order().find(|i| i.name() == tcx.item_name(did))?.def_id;
        Some(ty::Instance { def: ty::InstanceKind::Item(item), args: inst.args })
    }

    pub fn call(
        &mut self,
        st: &mut State,
        inst: Inst,
        vals: Vec<Val>,
        dest: Rc<Place>,
        target: Option<usize>,
        ops: &[Opd],
        rec: u32,
    ) -> R<()> {
        if rec > 20 {
            return unsup("redirect loop");
        }
        let c = self.callee(inst);
        match &c.kind {
            Kind::Body(b) => {
                for o in ops {
                    self.clear_move(st, o);
                }
                self.push_frame(st, b.clone(), vals, dest, target)
            }
            Kind::Redirect(i) => self.call(st, *i, vals, dest, target, ops, rec + 1),
            Kind::Native(f) => {
                *self.stats.natives.entry(c.name.clone()).or_default() += 1;
                self.ready(st, st.frames.len() - 1, &dest)?;
                let r = f(self, st, &crate::natives::Call { inst, name: &c.name, args: &vals })?;
                match r {
                    Nat::Val(v) => {
                        for o in ops {
                            self.clear_move(st, o);
                        }
                        self.write(st, &dest, v)?;
                        match target {
                            Some(b) => {
                                let f = st.top_mut();
                                f.bb = b;
                                f.stmt = 0;
                                Ok(())
                            }
                            None => unsup(format!("diverging native {} returned", c.name)),
                        }
                    }
                    Nat::Call(i, a) => self.call(st, i, a, dest, target, ops, rec + 1),
                    Nat::CallDyn(f, a) => match st.res(&f)?.clone() {
                        Val::Fn(i) => {
                            let a = self.dyn_args(i, a);
                            self.call(st, i, a, dest, target, ops, rec + 1)
                        }
                        v => unsup(format!("dyn call of {}", kind(&v))),
                    },
                }
            }
            Kind::Virtual(d) => {
                let mut vals = vals;
                let recv = st.res(&vals[0])?.clone();
                let (ty, recv) = match &recv {
                    Val::Ptr(p) => match p.meta {
                        Meta::Dyn(t) => (t, Val::Ptr(Rc::new(PtrV { base: p.base, path: p.path.clone(), meta: Meta::None }))),
                        _ => {
                            // pointer to a Box<dyn>
                            return unsup(format!("virtual call {} on thin pointer", c.name));
                        }
                    },
                    Val::Box(b, Some(t)) => (*t, Val::Box(b.clone(), None)),
                    v => return unsup(format!("virtual call {} on {}", c.name, kind(v))),
                };
                vals[0] = recv;
                let tcx = self.lower.tcx;
                let mut ga: Vec<_> = inst.args.iter().collect();
                ga[0] = ty.into();
                let i = match self.lower.resolve(*d, tcx.mk_args(&ga)) {
                    Some(i) => i,
                    None => return unsup(format!("virtual {}", c.name)),
                };
                self.call(st, i, vals, dest, target, ops, rec + 1)
            }
            Kind::Bad(e) => unsup(format!("call {}: {}", c.name, e)),
        }
    }

    // ------------------------------------------------------------ exploration

    fn at_stop(&self, st: &State, s: &Stop) -> bool {
        if st.frames.len() != s.depth {
            return false;
        }
        let f = st.top();
        if f.bb != s.bb || f.stmt != s.stmt {
            return false;
        }
        if let Some(u) = s.uid {
            return f.uid == u;
        }
        if let Some(sig) = &s.sig {
            return st
                .frames
                .iter()
                .zip(sig)
                .all(|(f, g)| Rc::as_ptr(&f.body) == g.0 && f.bb == g.1 && f.stmt == g.2);
        }
        true
    }

    fn region_stop(&self, st: &State) -> Option<Stop> {
        let f = st.top();
        let blk = &f.body.blocks[f.bb];
        let d = st.frames.len();
        if f.stmt < blk.stmts.len() {
            return Some(Stop { depth: d, bb: f.bb, stmt: f.stmt + 1, uid: Some(f.uid), sig: None });
        }
        if let Tm::Call { target: Some(t), .. } = &blk.term {
            return Some(Stop { depth: d, bb: *t, stmt: 0, uid: Some(f.uid), sig: None });
        }
        match f.body.ipdom[f.bb] {
            Some(b) => Some(Stop { depth: d, bb: b, stmt: 0, uid: Some(f.uid), sig: None }),
            None => {
                if d >= 2 {
                    let g = &st.frames[d - 2];
                    f.ret.map(|r| Stop { depth: d - 1, bb: r, stmt: 0, uid: Some(g.uid), sig: None })
                } else {
                    None
                }
            }
        }
    }

    /// A step; a bug of the executor itself leaves the path undecided.
    fn step_caught(&mut self, st: &mut State) -> R<()> {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.step(st))) {
            Ok(r) => r,
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
                unsup(format!("executor panic: {}", m.unwrap_or_default()))
            }
        }
    }

    /// Run until a stop is hit (returned with its index) or the path ends.
    pub fn run(&mut self, mut st: State, stops: &mut Vec<Stop>) -> Vec<(usize, State)> {
        let mut first = true;
        loop {
            if !first || true {
                if let Some(i) = (0..stops.len()).rev().find(|i| self.at_stop(&st, &stops[*i])) {
                    return vec![(i, st)];
                }
            }
            first = false;
            if self.out_of_time {
                return vec![];
            }
            if self.stats.steps % 4096 == 0 && std::time::Instant::now() > self.cfg.deadline {
                self.out_of_time = true;
                eprintln!("out of time at {}", self.stack(&st));
                return vec![];
            }
            match self.step_caught(&mut st) {
                Ok(()) => {
                    if st.frames.is_empty() {
                        self.stats.ends += 1;
                        if self.ends.len() < 2000 {
                            self.ends.push((st.model.clone(), st.reach.clone(), st.result.clone()));
                        }
                        return vec![];
                    }
                }
                Err(Ex::Split(c)) => {
                    let mt = self.feasible(&st, c);
                    let nc = term::not(c);
                    let mf = self.feasible(&st, nc);
                    match (mt, mf) {
                        (Some(m), None) => self.assume(&mut st, c, m, true),
                        (None, Some(m)) => self.assume(&mut st, nc, m, true),
                        (None, None) => return vec![],
                        (Some(m1), Some(m2)) => {
                            self.stats.forks += 1;
                            let stop = if self.cfg.merge { self.region_stop(&st) } else { None };
                            let mut a = st.clone();
                            self.assume(&mut a, c, m1, false);
                            let mut b = st;
                            self.assume(&mut b, nc, m2, false);
                            return self.join(vec![a, b], stop, stops);
                        }
                    }
                }
                Err(Ex::Skip(p, g, back)) => {
                    let mt = self.feasible(&st, g);
                    let ng = term::not(g);
                    let mf = self.feasible(&st, ng);
                    match (mt, mf) {
                        (Some(m), None) => self.assume(&mut st, g, m, true),
                        (None, Some(m)) => self.assume(&mut st, ng, m, true),
                        (None, None) => return vec![],
                        (Some(m1), Some(m2)) => {
                            self.stats.forks += 1;
                            let stop = Stop {
                                depth: st.frames.len(),
                                bb: st.top().bb,
                                stmt: st.top().stmt,
                                uid: None,
                                sig: Some(st.frames.iter().map(|f| (Rc::as_ptr(&f.body), f.bb, f.stmt)).collect()),
                            };
                            // taking branch: execute this call first so it leaves the stop point
                            let mut a = st.clone();
                            self.assume(&mut a, g, m1, false);
                            let mut b = st;
                            self.assume(&mut b, ng, m2, false);
                            // advance b past the item
                            let adv = (|| -> R<()> {
                                let v = b.get(&self.lower.consts, p.base, &p.path)?.clone();
                                let Val::Iter(it) = v else { return unsup("skip") };
                                let mut n = (*it).clone();
                                if back {
                                    n.end -= 1
                                } else {
                                    n.i += 1
                                }
                                b.set(p.base, &p.path, Val::Iter(Rc::new(n)))
                            })();
                            if let Err(Ex::Unsup(e)) = adv {
                                self.record_unsup(&b, e);
                                return vec![];
                            }
                            match self.step_caught(&mut a) {
                                Ok(()) => {}
                                _ => {
                                    self.record_unsup(&a, "guarded next".into());
                                    return vec![];
                                }
                            }
                            if !self.cfg.merge {
                                let mut out = self.run(a, stops);
                                out.extend(self.run(b, stops));
                                return out;
                            }
                            stops.push(stop);
                            let idx = stops.len() - 1;
                            let ra = self.run(a, stops);
                            stops.pop();
                            let mut out = vec![];
                            let mut here = vec![b];
                            for (i, s) in ra {
                                if i == idx {
                                    here.push(s)
                                } else {
                                    out.push((i, s))
                                }
                            }
                            let merged = self.merge_all(here);
                            for s in merged {
                                out.extend(self.run(s, stops));
                            }
                            return self.merge_tagged(out);
                        }
                    }
                }
                Err(Ex::Panic(m)) => {
                    if !self.unwind(&mut st, &m) {
                        self.uncaught(&st, m);
                        return vec![];
                    }
                }
                Err(Ex::Infeasible) => return vec![],
                Err(Ex::Unsup(e)) => {
                    self.record_unsup(&st, e);
                    return vec![];
                }
            }
        }
    }

    fn merge_tagged(&mut self, v: Vec<(usize, State)>) -> Vec<(usize, State)> {
        if v.len() < 2 {
            return v;
        }
        let mut groups: BTreeMap<usize, Vec<State>> = BTreeMap::new();
        for (i, s) in v {
            groups.entry(i).or_default().push(s);
        }
        let mut out = vec![];
        for (i, g) in groups {
            for s in self.merge_all(g) {
                out.push((i, s));
            }
        }
        out
    }

    fn join(&mut self, branches: Vec<State>, stop: Option<Stop>, stops: &mut Vec<Stop>) -> Vec<(usize, State)> {
        match stop {
            None => {
                let mut out = vec![];
                for s in branches {
                    out.extend(self.run(s, stops));
                }
                self.merge_tagged(out)
            }
            Some(stop) => {
                stops.push(stop);
                let idx = stops.len() - 1;
                let mut here = vec![];
                let mut out = vec![];
                for s in branches {
                    for (i, s) in self.run(s, stops) {
                        if i == idx {
                            here.push(s)
                        } else {
                            out.push((i, s))
                        }
                    }
                }
                stops.pop();
                let merged = self.merge_all(here);
                self.stats.max_live = self.stats.max_live.max(merged.len());
                for s in merged {
                    out.extend(self.run(s, stops));
                }
                self.merge_tagged(out)
            }
        }
    }

    fn merge_all(&mut self, states: Vec<State>) -> Vec<State> {
        let mut out: Vec<State> = vec![];
        'outer: for s in states {
            for o in out.iter_mut() {
                if let Some(m) = self.merge_states(o, &s) {
                    *o = m;
                    self.stats.merges += 1;
                    continue 'outer;
                }
            }
            if !out.is_empty() {
                self.stats.merge_fail += 1;
            }
            out.push(s);
        }
        out
    }

    fn merge_states(&mut self, a: &State, b: &State) -> Option<State> {
        if a.frames.len() != b.frames.len() || a.saved.len() != b.saved.len() || a.order_mode != b.order_mode {
            return None;
        }
        let n = a.frames.len();
        for (f, g) in a.frames.iter().zip(&b.frames) {
            if !Rc::ptr_eq(&f.body, &g.body) || f.bb != g.bb || f.stmt != g.stmt {
                return None;
            }
        }
        let k = a.pc.iter().zip(&b.pc).take_while(|(x, y)| x == y).count();
        let ca = term::conj(&a.pc[k..]);
        let cb = term::conj(&b.pc[k..]);
        let c = if k < a.pc.len() && k < b.pc.len() && term::and(a.pc[k], b.pc[k]) == term::FALSE {
            a.pc[k]
        } else {
            ca
        };
        let mut frames = Vec::with_capacity(n);
        for i in 0..n {
            let (f, g) = (&a.frames[i], &b.frames[i]);
            if Rc::ptr_eq(f, g) {
                frames.push(f.clone());
                continue;
            }
            let body = f.body.clone();
            let top = i + 1 == n;
            // liveness at the point where this frame continues
            let live: Option<&Vec<bool>> = if top {
                if f.stmt == 0 {
                    Some(&body.live_in[f.bb])
                } else {
                    None
                }
            } else {
                match &body.blocks[f.bb].term {
                    Tm::Call { target: Some(t), .. } => Some(&body.live_in[*t]),
                    _ => None,
                }
            };
            let dest_local = if !top { Some(a.frames[i + 1].dest.clone()) } else { None };
            let mut locals = Vec::with_capacity(f.locals.len());
            for l in 0..f.locals.len() {
                let (x, y) = (&f.locals[l], &g.locals[l]);
                if x.ident(y) {
                    locals.push(x.clone());
                    continue;
                }
                if let Some(lv) = live {
                    if !lv[l] {
                        locals.push(Val::Undef);
                        continue;
                    }
                }
                if let Some(d) = &dest_local {
                    if d.proj.is_empty() && d.local as usize == l {
                        locals.push(Val::Undef);
                        continue;
                    }
                }
                match merge(c, x, y) {
                    Some(v) => locals.push(v),
                    None => {
                        if self.cfg.trace {
                            eprintln!("merge fail in {} local _{}: {} vs {}", body.name, l, kind(x), kind(y));
                        }
                        return None;
                    }
                }
            }
            frames.push(Rc::new(Frame {
                uid: f.uid,
                body,
                locals,
                bb: f.bb,
                stmt: f.stmt,
                dest: f.dest.clone(),
                ret: f.ret,
            }));
        }
        // a cell that only one side has is never reached on the other
        let hn = a.heap.len().max(b.heap.len());
        let mut heap = Vec::with_capacity(hn);
        for i in 0..hn {
            let x = a.heap.get(i).unwrap_or(&Val::Undef);
            let y = b.heap.get(i).unwrap_or(&Val::Undef);
            heap.push(merge(c, x, y)?);
        }
        let over = merge_over(c, &a.over, &b.over)?;
        let mut saved = vec![];
        for (x, y) in a.saved.iter().zip(&b.saved) {
            saved.push(merge_over(c, x, y)?);
        }
        let mut pc: Vec<T> = a.pc[..k].to_vec();
        let d = term::or(ca, cb);
        if d != term::TRUE {
            let implied = {
                let l = lits_of(&pc);
                if l.known(d) == Some(true) {
                    true
                } else {
                    let nd = term::not(d);
                    self.query(&pc, nd).0 == Res::Unsat
                }
            };
            if !implied {
                for x in match term::node(d) {
                    Node::And(xs) => xs.to_vec(),
                    _ => vec![d],
                } {
                    pc.push(x);
                }
            }
        }
        let mut lits = lits_of(&pc);
        for t in a.lits.set.iter() {
            if b.lits.set.contains(t) {
                lits.add(*t);
            }
        }
        let mut reach = a.reach.clone();
        reach.extend(b.reach.iter().cloned());
        Some(State {
            frames,
            heap,
            over,
            saved,
            pc,
            lits: Rc::new(lits),
            model: a.model.clone(),
            order_mode: a.order_mode,
            order_ctr: a.order_ctr.max(b.order_ctr),
            reach,
            result: None,
        })
    }

    fn stack(&self, st: &State) -> String {
        let mut v: Vec<String> = st.frames.iter().map(|f| format!("{}:bb{}", f.body.name, f.bb)).collect();
        v.reverse();
        v.truncate(9);
        v.join(" <- ")
    }
    fn record_unsup(&mut self, st: &State, e: String) {
        let s = format!("{} @ {}", e, self.stack(st));
        if self.cfg.trace {
            eprintln!("UNSUP {}", s);
        }
        if self.unsup_asg.len() < 200 {
            self.unsup_asg.push((s.clone(), st.model.asg.clone()));
        }
        *self.unsup.entry(s).or_default() += 1;
    }
    fn uncaught(&mut self, st: &State, m: String) {
        self.viol.push(Violation { id: "uncaught-panic".into(), kind: "panic", msg: m, asg: st.model.asg.clone() });
    }

    pub fn check(&mut self, st: &mut State, c: T, id: &str) -> R<()> {
        self.stats.checks += 1;
        let e = self.stats.check_ids.entry(id.to_string()).or_default();
        e.0 += 1;
        if c == term::TRUE {
            return Ok(());
        }
        self.stats.check_queries += 1;
        self.stats.check_ids.get_mut(id).unwrap().1 += 1;
        let nc = term::not(c);
        if let Some(dir) = &self.cfg.dump_smt {
            let n = self.smt_dump_n;
            self.smt_dump_n += 1;
            if n < 400 {
                let mut v = st.pc.clone();
                v.push(nc);
                let _ = std::fs::write(format!("{}/q{}.smt2", dir, n), term::to_smt2(&v));
            }
        }
        let (r, m) = if st.known(c) == Some(true) { (Res::Unsat, None) } else { self.query(&st.pc, nc) };
        match r {
            Res::Sat => {
                let asg = m.unwrap().asg.clone();
                if self.viol.iter().filter(|v| v.id == id).count() < self.cfg.max_viol_per_id {
                    self.viol.push(Violation { id: id.to_string(), kind: "check", msg: String::new(), asg });
                }
            }
            Res::Unknown => {
                *self.unsup.entry(format!("solver unknown on check {}", id)).or_default() += 1;
            }
            Res::Unsat => {
                let m = st.model.clone();
                self.assume(st, c, m, true);
                return Ok(());
            }
        }
        match self.feasible(st, c) {
            Some(m) => {
                self.assume(st, c, m, false);
                Ok(())
            }
            None => Err(Ex::Infeasible),
        }
    }

    pub fn start(&mut self, inst: Inst) -> Result<(), String> {
        let c = self.callee(inst);
        let Kind::Body(b) = &c.kind else { return Err("no harness body".into()) };
        let mut st = State {
            frames: vec![],
            heap: vec![],
            over: Default::default(),
            saved: vec![],
            pc: vec![],
            lits: Rc::new(Lits::default()),
            model: Model::new(HashMap::new()),
            order_mode: 0,
            order_ctr: 0,
            reach: BTreeSet::new(),
            result: None,
        };
        let p = Rc::new(Place { local: 0, proj: vec![] });
        self.push_frame(&mut st, b.clone(), vec![], p, None).map_err(|_| "push".to_string())?;
        self.run(st, &mut vec![]);
        Ok(())
    }
}
