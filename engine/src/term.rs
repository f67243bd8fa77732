//! Hash-consed terms: booleans (width 0) and bit-vectors (width 1..=128).
use std::cell::RefCell;
use crate::fx::{Map as FMap, Set as FSet};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct T(pub u32);

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    True,
    False,
    Const(u32, u128),
    Var(u32, Rc<str>), // width (0 = bool), name
    Not(T),
    And(Rc<[T]>), // sorted, >=2, no dup / complement, no nested And
    IteB(T, T, T),
    Ite(T, T, T), // bv
    Eq(T, T),     // bv eq
    Ult(T, T),
    Slt(T, T),
    Bin(Op, T, T),
    ZExt(u32, T),
    SExt(u32, T),
    Extract(u32, T), // low n bits
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

pub struct Store {
    nodes: Vec<Node>,
    widths: Vec<u32>,
    map: FMap<Node, T>,
    memo_eq: FMap<(T, T), T>,
}

thread_local! {
    static STORE: RefCell<Store> = RefCell::new(Store::new());
}

pub const FALSE: T = T(0);
pub const TRUE: T = T(1);

impl Store {
    fn new() -> Self {
        let mut s = Store { nodes: vec![], widths: vec![], map: FMap::default(), memo_eq: FMap::default() };
        s.intern(Node::False, 0);
        s.intern(Node::True, 0);
        s
    }
    fn intern(&mut self, n: Node, w: u32) -> T {
        if let Some(t) = self.map.get(&n) {
            return *t;
        }
        let t = T(self.nodes.len() as u32);
        self.nodes.push(n.clone());
        self.widths.push(w);
        self.map.insert(n, t);
        t
    }
}

fn mk(n: Node, w: u32) -> T {
    STORE.with(|s| s.borrow_mut().intern(n, w))
}
pub fn node(t: T) -> Node {
    STORE.with(|s| s.borrow().nodes[t.0 as usize].clone())
}
pub fn width(t: T) -> u32 {
    STORE.with(|s| s.borrow().widths[t.0 as usize])
}
pub fn count() -> usize {
    STORE.with(|s| s.borrow().nodes.len())
}
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext_to_i128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else if v >> (w - 1) & 1 == 1 {
        (v | !mask(w)) as i128
    } else {
        v as i128
    }
}

pub fn b(x: bool) -> T {
    if x {
        TRUE
    } else {
        FALSE
    }
}
pub fn c(w: u32, v: u128) -> T {
    debug_assert!(w > 0);
    mk(Node::Const(w, v & mask(w)), w)
}
pub fn var(w: u32, name: &str) -> T {
    mk(Node::Var(w, name.into()), w)
}
pub fn as_const(t: T) -> Option<u128> {
    STORE.with(|s| match &s.borrow().nodes[t.0 as usize] {
        Node::Const(_, v) => Some(*v),
        Node::True => Some(1),
        Node::False => Some(0),
        _ => None,
    })
}
pub fn as_bool(t: T) -> Option<bool> {
    match t {
        TRUE => Some(true),
        FALSE => Some(false),
        _ => None,
    }
}

pub fn not(t: T) -> T {
    match t {
        TRUE => FALSE,
        FALSE => TRUE,
        _ => {
            if let Node::Not(x) = node(t) {
                x
            } else {
                mk(Node::Not(t), 0)
            }
        }
    }
}

pub fn conj(ts: &[T]) -> T {
    let mut v: Vec<T> = Vec::new();
    for &t in ts {
        match t {
            TRUE => {}
            FALSE => return FALSE,
            _ => {
                if let Node::And(xs) = node(t) {
                    v.extend(xs.iter().copied())
                } else {
                    v.push(t)
                }
            }
        }
    }
    v.sort();
    v.dedup();
    // what the conjuncts deny; a conjunct and its denial: false
    let mut negs: Vec<T> = vec![];
    for &t in &v {
        if let Node::Not(x) = node(t) {
            if v.binary_search(&x).is_ok() {
                return FALSE;
            }
            negs.push(x);
        }
    }
    // x=c1 & x=c2 contradiction; x=c & not(x=d) simplification
    let mut eqs: FMap<T, T> = FMap::default();
    for &t in &v {
        if let Node::Eq(a, k) = node(t) {
            if as_const(k).is_some() {
                if let Some(o) = eqs.insert(a, k) {
                    if o != k {
                        return FALSE;
                    }
                }
            }
        }
    }
    if !eqs.is_empty() {
        v.retain(|&t| {
            if let Node::Not(x) = node(t) {
                if let Node::Eq(a, k) = node(x) {
                    if let Some(o) = eqs.get(&a) {
                        if as_const(k).is_some() && *o != k {
                            return false;
                        }
                    }
                }
            }
            true
        });
    }
    // unit propagation into disjunctions: x & (not(x & y)) -> x & not y
    let mut changed = false;
    if !negs.is_empty() && v.len() > 1 {
      let set: Vec<T> = v.clone();
      negs.sort();
      for i in 0..v.len() {
        if let Node::Not(x) = node(v[i]) {
            if let Node::And(xs) = node(x) {
                let mut out = vec![];
                let mut sat = false;
                let mut ch = false;
                for &y in xs.iter() {
                    if set.binary_search(&y).is_ok() {
                        ch = true; // y true: drop
                    } else if negs.binary_search(&y).is_ok() || matches!(node(y), Node::Not(z) if set.binary_search(&z).is_ok()) {
                        sat = true;
                        break;
                    } else {
                        out.push(y)
                    }
                }
                if sat {
                    v[i] = TRUE;
                    changed = true;
                } else if ch {
                    v[i] = not(conj(&out));
                    changed = true;
                }
            }
        }
      }
    }
    if changed {
        return conj(&v);
    }
    match v.len() {
        0 => TRUE,
        1 => v[0],
        _ => mk(Node::And(v.into()), 0),
    }
}
thread_local! {
    static AND: std::cell::RefCell<FMap<(T, T), T>> = Default::default();
    static OR: std::cell::RefCell<FMap<(T, T), T>> = Default::default();
}
pub fn and(a: T, bb: T) -> T {
    if a == bb || bb == TRUE {
        return a;
    }
    if a == TRUE {
        return bb;
    }
    if a == FALSE || bb == FALSE {
        return FALSE;
    }
    let k = if a < bb { (a, bb) } else { (bb, a) };
    if let Some(r) = AND.with(|m| m.borrow().get(&k).copied()) {
        return r;
    }
    let r = conj(&[a, bb]);
    AND.with(|m| m.borrow_mut().insert(k, r));
    r
}
fn conjuncts(t: T) -> Vec<T> {
    match node(t) {
        Node::And(v) => v.to_vec(),
        Node::True => vec![],
        _ => vec![t],
    }
}
pub fn or(a: T, bb: T) -> T {
    if a == bb || bb == FALSE {
        return a;
    }
    if a == FALSE {
        return bb;
    }
    if a == TRUE || bb == TRUE {
        return TRUE;
    }
    let k = if a < bb { (a, bb) } else { (bb, a) };
    if let Some(r) = OR.with(|m| m.borrow().get(&k).copied()) {
        return r;
    }
    let r = or_new(a, bb);
    OR.with(|m| m.borrow_mut().insert(k, r));
    r
}
fn or_new(a: T, bb: T) -> T {
    if a == not(bb) {
        return TRUE;
    }
    let ca = conjuncts(a);
    let cb = conjuncts(bb);
    let common: Vec<T> = ca.iter().copied().filter(|x| cb.contains(x)).collect();
    if !common.is_empty() {
        let ra: Vec<T> = ca.iter().copied().filter(|x| !common.contains(x)).collect();
        let rb: Vec<T> = cb.iter().copied().filter(|x| !common.contains(x)).collect();
        let mut v = common;
        v.push(or(conj(&ra), conj(&rb)));
        return conj(&v);
    }
    not(and(not(a), not(bb)))
}
pub fn implies(a: T, bb: T) -> T {
    or(not(a), bb)
}
pub fn iff(a: T, bb: T) -> T {
    ite(a, bb, not(bb))
}

pub fn ite(cnd: T, a: T, bb: T) -> T {
    if cnd == TRUE || a == bb {
        return a;
    }
    if cnd == FALSE {
        return bb;
    }
    if let Node::Not(x) = node(cnd) {
        return ite(x, bb, a);
    }
    let w = width(a);
    debug_assert_eq!(w, width(bb), "ite width");
    if w == 0 {
        if a == TRUE || a == cnd {
            return or(cnd, bb);
        }
        if a == FALSE || a == not(cnd) {
            return and(not(cnd), bb);
        }
        if bb == FALSE || bb == cnd {
            return and(cnd, a);
        }
        if bb == TRUE || bb == not(cnd) {
            return or(not(cnd), a);
        }
        if let Node::IteB(c2, x, _) = node(a) {
            if c2 == cnd {
                return ite(cnd, x, bb);
            }
        }
        if let Node::IteB(c2, _, y) = node(bb) {
            if c2 == cnd {
                return ite(cnd, a, y);
            }
        }
        return mk(Node::IteB(cnd, a, bb), 0);
    }
    if let Node::Ite(c2, x, y) = node(a) {
        if c2 == cnd {
            return ite(cnd, x, bb);
        }
        // ite(c, ite(c2, x, y), x) etc.
        if x == bb {
            return ite(and(cnd, not(c2)), y, x);
        }
        if y == bb {
            return ite(and(cnd, c2), x, y);
        }
    }
    if let Node::Ite(c2, x, y) = node(bb) {
        if c2 == cnd {
            return ite(cnd, a, y);
        }
        if x == a {
            return ite(or(cnd, c2), a, y);
        }
        if y == a {
            return ite(and(not(cnd), c2), x, a);
        }
    }
    mk(Node::Ite(cnd, a, bb), w)
}

pub fn eq(a: T, bb: T) -> T {
    if a == bb {
        return TRUE;
    }
    let w = width(a);
    if w == 0 {
        return iff(a, bb);
    }
    debug_assert_eq!(w, width(bb), "eq width");
    let (ca, cb) = (as_const(a), as_const(bb));
    if let (Some(x), Some(y)) = (ca, cb) {
        return b(x == y);
    }
    let (a, bb) = if ca.is_some() { (bb, a) } else { (a, bb) };
    if as_const(bb).is_some() {
        if let Node::Ite(..) = node(a) {
            if let Some(r) = STORE.with(|s| s.borrow().memo_eq.get(&(a, bb)).copied()) {
                return r;
            }
            let Node::Ite(cn, x, y) = node(a) else { unreachable!() };
            let r = ite(cn, eq(x, bb), eq(y, bb));
            STORE.with(|s| s.borrow_mut().memo_eq.insert((a, bb), r));
            return r;
        }
        if let Node::ZExt(_, x) = node(a) {
            let k = as_const(bb).unwrap();
            let wx = width(x);
            if k > mask(wx) {
                return FALSE;
            }
            return eq(x, c(wx, k));
        }
        return mk(Node::Eq(a, bb), 0);
    }
    // ite vs ite with same shape
    if let (Node::Ite(c1, x1, y1), Node::Ite(c2, x2, y2)) = (node(a), node(bb)) {
        if c1 == c2 {
            return ite(c1, eq(x1, x2), eq(y1, y2));
        }
    }
    let (a, bb) = if a < bb { (a, bb) } else { (bb, a) };
    mk(Node::Eq(a, bb), 0)
}

fn lift1(a: T, f: &dyn Fn(T) -> T) -> Option<T> {
    // push a unary op through an ite whose leaves are all constants
    if let Node::Ite(cn, x, y) = node(a) {
        if is_const_tree(a, 64) {
            return Some(ite(cn, lift_leaf(x, f), lift_leaf(y, f)));
        }
    }
    None
}
fn lift_leaf(a: T, f: &dyn Fn(T) -> T) -> T {
    if let Node::Ite(cn, x, y) = node(a) {
        ite(cn, lift_leaf(x, f), lift_leaf(y, f))
    } else {
        f(a)
    }
}
fn is_const_tree(a: T, budget: usize) -> bool {
    fn go(a: T, n: &mut usize) -> bool {
        if *n == 0 {
            return false;
        }
        *n -= 1;
        match node(a) {
            Node::Ite(_, x, y) => go(x, n) && go(y, n),
            _ => as_const(a).is_some(),
        }
    }
    let mut n = budget;
    go(a, &mut n)
}

/// unsigned range of a bit-vector term (cheap structural bound)
pub fn bounds(t: T, depth: u32) -> (u128, u128) {
    if let Node::Const(_, v) = node(t) {
        return (v, v);
    }
    if let Some(r) = BOUNDS.with(|b| b.borrow().get(&t).copied()) {
        return r;
    }
    let r = bounds2(t, depth);
    BOUNDS.with(|b| b.borrow_mut().insert(t, r));
    r
}
thread_local! {
    static BOUNDS: RefCell<FMap<T, (u128, u128)>> = RefCell::new(FMap::default());
}
fn bounds2(t: T, _depth: u32) -> (u128, u128) {
    let w = width(t);
    let full = (0, mask(w));
    let depth = 1;
    match node(t) {
        Node::Const(_, v) => (v, v),
        Node::ZExt(_, x) => bounds(x, depth - 1),
        Node::Ite(_, x, y) => {
            let (a, b) = bounds(x, depth - 1);
            let (c, d) = bounds(y, depth - 1);
            (a.min(c), b.max(d))
        }
        Node::Bin(Op::Add, x, y) => {
            let (a, b) = bounds(x, depth - 1);
            let (c, d) = bounds(y, depth - 1);
            match b.checked_add(d) {
                Some(m) if m <= mask(w) => (a + c, m),
                _ => full,
            }
        }
        Node::Bin(Op::Or | Op::Xor, x, y) => {
            let m = bounds(x, depth).1 | bounds(y, depth).1;
            (0, if m == 0 { 0 } else { (!0u128) >> m.leading_zeros() })
        }
        Node::Bin(Op::And, x, y) => (0, bounds(x, depth - 1).1.min(bounds(y, depth - 1).1)),
        _ => full,
    }
}

pub fn ult(a: T, bb: T) -> T {
    if a == bb {
        return FALSE;
    }
    {
        let (l1, h1) = bounds(a, 12);
        let (l2, h2) = bounds(bb, 12);
        if h1 < l2 {
            return TRUE;
        }
        if l1 >= h2 {
            return FALSE;
        }
    }
    match (as_const(a), as_const(bb)) {
        (Some(x), Some(y)) => b(x < y),
        (_, Some(0)) => FALSE,
        (None, Some(_)) => {
            if let Some(r) = lift1b(a, &|x| ult(x, bb)) {
                return r;
            }
            mk(Node::Ult(a, bb), 0)
        }
        (Some(_), None) => {
            if let Some(r) = lift1b(bb, &|x| ult(a, x)) {
                return r;
            }
            mk(Node::Ult(a, bb), 0)
        }
        _ => mk(Node::Ult(a, bb), 0),
    }
}
fn lift1b(a: T, f: &dyn Fn(T) -> T) -> Option<T> {
    lift1(a, f)
}
pub fn ule(a: T, bb: T) -> T {
    not(ult(bb, a))
}
pub fn slt(a: T, bb: T) -> T {
    if a == bb {
        return FALSE;
    }
    let w = width(a);
    match (as_const(a), as_const(bb)) {
        (Some(x), Some(y)) => b(sext_to_i128(x, w) < sext_to_i128(y, w)),
        (None, Some(_)) => lift1(a, &|x| slt(x, bb)).unwrap_or_else(|| mk(Node::Slt(a, bb), 0)),
        (Some(_), None) => lift1(bb, &|x| slt(a, x)).unwrap_or_else(|| mk(Node::Slt(a, bb), 0)),
        _ => mk(Node::Slt(a, bb), 0),
    }
}
pub fn eval_op(op: Op, w: u32, x: u128, y: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => x.wrapping_add(y),
        Op::Sub => x.wrapping_sub(y),
        Op::Mul => x.wrapping_mul(y),
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sext_to_i128(x, w), sext_to_i128(y, w));
            if b == 0 {
                if a < 0 {
                    1
                } else {
                    m
                }
            } else {
                a.wrapping_div(b) as u128
            }
        }
        Op::SRem => {
            let (a, b) = (sext_to_i128(x, w), sext_to_i128(y, w));
            if b == 0 {
                x
            } else {
                a.wrapping_rem(b) as u128
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                x << y
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let s = sext_to_i128(x, w);
            (if y >= w as u128 { s >> 127 } else { s >> y }) as u128
        }
    };
    r & m
}
pub fn bin(op: Op, a: T, bb: T) -> T {
    let w = width(a);
    if w == 0 {
        return match op {
            Op::And => and(a, bb),
            Op::Or => or(a, bb),
            Op::Xor => not(iff(a, bb)),
            _ => panic!("bool bin {:?}", op),
        };
    }
    match (as_const(a), as_const(bb)) {
        (Some(x), Some(y)) => return c(w, eval_op(op, w, x, y)),
        (None, Some(y)) => {
            match op {
                Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if y == 0 => return a,
                Op::Mul | Op::UDiv if y == 1 => return a,
                Op::And if y == mask(w) => return a,
                Op::And | Op::Mul if y == 0 => return bb,
                _ => {}
            }
            if let Some(r) = lift1(a, &|x| bin(op, x, bb)) {
                return r;
            }
        }
        (Some(x), None) => {
            match op {
                Op::Add | Op::Or | Op::Xor if x == 0 => return bb,
                Op::Mul if x == 1 => return bb,
                _ => {}
            }
            if let Some(r) = lift1(bb, &|y| bin(op, a, y)) {
                return r;
            }
        }
        _ => {}
    }
    mk(Node::Bin(op, a, bb), w)
}
pub fn zext(w: u32, a: T) -> T {
    let wa = width(a);
    if wa == 0 {
        return ite(a, c(w, 1), c(w, 0));
    }
    if w == wa {
        return a;
    }
    if let Some(x) = as_const(a) {
        return c(w, x);
    }
    if let Some(r) = lift1(a, &|x| zext(w, x)) {
        return r;
    }
    mk(Node::ZExt(w, a), w)
}
pub fn sext(w: u32, a: T) -> T {
    let wa = width(a);
    if w == wa {
        return a;
    }
    if let Some(x) = as_const(a) {
        return c(w, sext_to_i128(x, wa) as u128);
    }
    if let Some(r) = lift1(a, &|x| sext(w, x)) {
        return r;
    }
    mk(Node::SExt(w, a), w)
}
pub fn trunc(w: u32, a: T) -> T {
    let wa = width(a);
    if w == wa {
        return a;
    }
    if let Some(x) = as_const(a) {
        return c(w, x);
    }
    if let Node::ZExt(_, x) = node(a) {
        let wx = width(x);
        if wx == w {
            return x;
        }
        if wx < w {
            return zext(w, x);
        }
    }
    if let Some(r) = lift1(a, &|x| trunc(w, x)) {
        return r;
    }
    mk(Node::Extract(w, a), w)
}

/// Evaluate under an assignment (missing vars = 0). `cache` must belong to this assignment.
pub fn eval(t: T, asg: &HashMap<String, u128>, cache: &mut FMap<T, u128>) -> u128 {
    if let Some(v) = as_const(t) {
        return v;
    }
    if let Some(v) = cache.get(&t) {
        return *v;
    }
    let w = width(t);
    let r = match node(t) {
        Node::True | Node::False | Node::Const(..) => unreachable!(),
        Node::Var(_, n) => asg.get(&*n).copied().unwrap_or(0),
        Node::Not(x) => 1 - eval(x, asg, cache),
        Node::And(xs) => {
            let mut r = 1;
            for &x in xs.iter() {
                if eval(x, asg, cache) == 0 {
                    r = 0;
                    break;
                }
            }
            r
        }
        Node::IteB(cn, x, y) | Node::Ite(cn, x, y) => {
            if eval(cn, asg, cache) != 0 {
                eval(x, asg, cache)
            } else {
                eval(y, asg, cache)
            }
        }
        Node::Eq(x, y) => (eval(x, asg, cache) == eval(y, asg, cache)) as u128,
        Node::Ult(x, y) => (eval(x, asg, cache) < eval(y, asg, cache)) as u128,
        Node::Slt(x, y) => {
            let w = width(x);
            (sext_to_i128(eval(x, asg, cache), w) < sext_to_i128(eval(y, asg, cache), w)) as u128
        }
        Node::Bin(op, x, y) => eval_op(op, w, eval(x, asg, cache), eval(y, asg, cache)),
        Node::ZExt(_, x) => eval(x, asg, cache),
        Node::SExt(_, x) => sext_to_i128(eval(x, asg, cache), width(x)) as u128 & mask(w),
        Node::Extract(w, x) => eval(x, asg, cache) & mask(w),
    };
    cache.insert(t, r);
    r
}

/// SMT-LIB2 rendering of a conjunction (for cross-checking with another solver).
pub fn to_smt2(asserts: &[T]) -> String {
    use std::fmt::Write;
    let mut out = String::from("(set-logic QF_BV)\n");
    let mut done: HashMap<T, String> = HashMap::new();
    fn go(t: T, out: &mut String, done: &mut HashMap<T, String>) -> String {
        if let Some(s) = done.get(&t) {
            return s.clone();
        }
        let w = width(t);
        let mut inline = true;
        let body = match node(t) {
            Node::True => "true".to_string(),
            Node::False => "false".into(),
            Node::Const(w, v) => format!("(_ bv{} {})", v, w),
            Node::Var(_, n) => {
                let nm = format!("|{}|", n);
                if w == 0 {
                    writeln!(out, "(declare-const {} Bool)", nm).unwrap();
                } else {
                    writeln!(out, "(declare-const {} (_ BitVec {}))", nm, w).unwrap();
                }
                nm
            }
            n => {
                inline = false;
                let mut a = |t: T| go(t, out, done);
                match n {
                    Node::Not(x) => format!("(not {})", a(x)),
                    Node::And(xs) => {
                        let v: Vec<String> = xs.iter().copied().map(a).collect();
                        format!("(and {})", v.join(" "))
                    }
                    Node::IteB(x, y, z) | Node::Ite(x, y, z) => format!("(ite {} {} {})", a(x), a(y), a(z)),
                    Node::Eq(x, y) => format!("(= {} {})", a(x), a(y)),
                    Node::Ult(x, y) => format!("(bvult {} {})", a(x), a(y)),
                    Node::Slt(x, y) => format!("(bvslt {} {})", a(x), a(y)),
                    Node::Bin(op, x, y) => {
                        let o = match op {
                            Op::Add => "bvadd",
                            Op::Sub => "bvsub",
                            Op::Mul => "bvmul",
                            Op::UDiv => "bvudiv",
                            Op::URem => "bvurem",
                            Op::SDiv => "bvsdiv",
                            Op::SRem => "bvsrem",
                            Op::And => "bvand",
                            Op::Or => "bvor",
                            Op::Xor => "bvxor",
                            Op::Shl => "bvshl",
                            Op::LShr => "bvlshr",
                            Op::AShr => "bvashr",
                        };
                        format!("({} {} {})", o, a(x), a(y))
                    }
                    Node::ZExt(w, x) => format!("((_ zero_extend {}) {})", w - width(x), a(x)),
                    Node::SExt(w, x) => format!("((_ sign_extend {}) {})", w - width(x), a(x)),
                    Node::Extract(w, x) => format!("((_ extract {} 0) {})", w - 1, a(x)),
                    _ => unreachable!(),
                }
            }
        };
        let s = if inline {
            body
        } else {
            let nm = format!("t{}", t.0);
            let sort = if w == 0 { "Bool".to_string() } else { format!("(_ BitVec {})", w) };
            writeln!(out, "(define-fun {} () {} {})", nm, sort, body).unwrap();
            nm
        };
        done.insert(t, s.clone());
        s
    }
    for &t in asserts {
        let s = go(t, &mut out, &mut done);
        writeln!(out, "(assert {})", s).unwrap();
    }
    out.push_str("(check-sat)\n");
    out
}
