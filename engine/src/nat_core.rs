//! Runtime hooks, panics, intrinsics, formatting, logging, regex, chars.
use crate::exec::*;
use crate::natives::*;
use crate::regexsym::in_range;
use crate::term::{self, T};
use crate::val::*;
use rustc_middle::ty::TyKind;
use std::collections::HashMap;
use std::rc::Rc;

fn label(e: &Engine, st: &State, v: &Val) -> R<String> {
    let s = e.s(st, v)?;
    let s = e.leaf(st, &s)?;
    match s.as_const() {
        Some(x) => Ok(x.to_string()),
        None => unsup("symbolic label"),
    }
}
fn fresh(e: &mut Engine, st: &mut State, w: u32, name: &str, dom: T, desc: String) -> R<T> {
    e.vars.insert(name.to_string(), (w, desc));
    if let Some(x) = e.fix.get(name) {
        return Ok(if w == 0 { term::b(*x != 0) } else { term::c(w, *x) });
    }
    let v = term::var(w, name);
    if dom != term::TRUE && st.known(dom) != Some(true) {
        match e.feasible(st, dom) {
            Some(m) => e.assume(st, dom, m, false),
            None => return Err(Ex::Infeasible),
        }
    }
    Ok(v)
}
fn choice(e: &mut Engine, st: &mut State, l: &str, n: usize) -> R<T> {
    if n == 0 {
        return unsup("empty choice");
    }
    if n == 1 {
        return Ok(term::c(8, 0));
    }
    let v = term::var(8, l);
    let dom = if n >= 256 { term::TRUE } else { term::ult(v, term::c(8, n as u128)) };
    fresh(e, st, 8, l, dom, format!("0..{}", n))
}

fn any_bool(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let l = label(e, st, &c.args[0])?;
    let v = fresh(e, st, 0, &l, term::TRUE, "bool".into())?;
    ok(Val::Int(v))
}
fn any_choice(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let l = label(e, st, &c.args[0])?;
    let n = e.n(st, &c.args[1])?;
    let v = choice(e, st, &l, n)?;
    ok(Val::Int(term::zext(64, v)))
}
fn any_string(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let l = label(e, st, &c.args[0])?;
    let (min, max) = (e.n(st, &c.args[1])?, e.n(st, &c.args[2])?);
    let rs: Vec<char> = label(e, st, &c.args[3])?.chars().collect();
    let ln = choice(e, st, &format!("{}.len", l), max - min + 1)?;
    let mut chars = vec![];
    for i in 0..max {
        let nm = format!("{}.{}", l, i);
        let v = term::var(7, &nm);
        let mut dom = term::FALSE;
        for p in rs.chunks(2) {
            dom = term::or(dom, in_range(v, p[0] as u32, p[1] as u32));
        }
        let v = fresh(e, st, 7, &nm, dom, format!("char in {}", rs.iter().collect::<String>()))?;
        chars.push(term::zext(32, v));
    }
    let mut r = S::from_chars(chars.clone());
    for k in (min..max).rev() {
        let s = S::from_chars(chars[..k].to_vec());
        r = S::ite(term::eq(ln, term::c(8, (k - min) as u128)), s, r);
    }
    ok(Val::Str(r))
}
fn pick(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let l = label(e, st, &c.args[0])?;
    let s = e.own_seq(st, &c.args[1])?;
    let xs = e.plain(st, &s)?;
    let v = choice(e, st, &l, xs.len())?;
    let mut r = xs[xs.len() - 1].clone();
    for i in (0..xs.len() - 1).rev() {
        let g = term::eq(v, term::c(8, i as u128));
        r = match merge(g, &xs[i], &r) {
            Some(m) => m,
            None => return Err(Ex::Split(g)),
        };
    }
    ok(r)
}
fn select(_e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let g = _e.i(st, &c.args[0])?;
    if let Some(b) = st.known(g) {
        return ok(c.args[if b { 1 } else { 2 }].clone());
    }
    match merge(g, &c.args[1], &c.args[2]) {
        Some(m) => ok(m),
        None => Err(Ex::Split(g)),
    }
}
fn assume(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let g = e.i(st, &c.args[0])?;
    match e.feasible(st, g) {
        Some(m) => e.assume(st, g, m, false),
        None => return Err(Ex::Infeasible),
    }
    ok(Val::unit())
}
fn check(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let g = e.i(st, &c.args[0])?;
    let id = label(e, st, &c.args[1])?;
    e.check(st, g, &id)?;
    ok(Val::unit())
}
fn reach(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let id = label(e, st, &c.args[0])?;
    *e.reached.entry(id.clone()).or_default() += 1;
    st.reach.insert(Rc::from(id.as_str()));
    ok(Val::unit())
}
fn hash_order(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    st.order_mode = e.n(st, &c.args[0])? as u32;
    ok(Val::unit())
}

fn panic_fmt(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let m = render(e, st, &c.args[0]).ok().and_then(|s| s.as_const().map(|x| x.to_string())).unwrap_or_else(|| "panic".into());
    Err(Ex::Panic(m))
}

// ---------------------------------------------------------------- formatting

fn fmt_arg(e: &mut Engine, _st: &mut State, c: &Call) -> NR {
    let ty = e.ty_arg(c, 0);
    let k = match c.name.rsplit("::").next().unwrap_or("") {
        n if n.starts_with("new_display") => "display",
        n if n.starts_with("new_debug") => "debug",
        _ => "other",
    };
    let k = if canon(c.name).ends_with("new_display") {
        "display"
    } else if canon(c.name).ends_with("new_debug") {
        "debug"
    } else {
        k
    };
    ok(Val::Opaque(Rc::new(Opaque::FmtArg { kind: k, ty, val: c.args[0].clone() })))
}
fn args_const(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let v = e.deep(st, &c.args[0])?;
    let p = match v {
        Val::Str(s) => match e.leaf(st, &s)?.as_const() {
            Some(x) => vec![FmtPiece::Lit(x.to_string())],
            None => return unsup("symbolic format string"),
        },
        Val::Seq(s) => {
            let mut o = vec![];
            for x in &s.items {
                let t = e.s(st, x)?;
                o.push(FmtPiece::Lit(t.as_const().unwrap_or("").to_string()));
            }
            o
        }
        v => return unsup(format!("format pieces {}", kind(&v))),
    };
    ok(Val::Opaque(Rc::new(Opaque::FmtArgs(p))))
}
fn args_new(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let t = e.deep(st, &c.args[0])?;
    let a = e.deep(st, &c.args[1])?;
    let (Val::Seq(t), Val::Seq(a)) = (&t, &a) else { return unsup("format args") };
    let bytes: Vec<u8> = t
        .items
        .iter()
        .map(|x| match x {
            Val::Int(t) => term::as_const(*t).unwrap_or(0) as u8,
            _ => 0,
        })
        .collect();
    let mut out = vec![];
    let mut i = 0;
    let mut k = 0;
    while i < bytes.len() {
        let b = bytes[i];
        i += 1;
        if b == 0 {
            break;
        }
        if b < 0x80 || b == 0x80 {
            let n = if b == 0x80 {
                let n = bytes[i] as usize | (bytes[i + 1] as usize) << 8;
                i += 2;
                n
            } else {
                b as usize
            };
            out.push(FmtPiece::Lit(String::from_utf8_lossy(&bytes[i..i + n]).to_string()));
            i += n;
        } else {
            let simple = b == 0xC0;
            let mut idx = k;
            if !simple {
                if b & 1 != 0 {
                    i += 4
                }
                if b & 2 != 0 {
                    i += 2
                }
                if b & 4 != 0 {
                    i += 2
                }
                if b & 8 != 0 {
                    idx = bytes[i] as usize | (bytes[i + 1] as usize) << 8;
                    i += 2;
                }
            }
            let simple = simple || b == 0xC8;
            match a.items.get(idx) {
                Some(v) => out.push(FmtPiece::Arg(v.clone(), simple)),
                None => return unsup("format argument index"),
            }
            k = idx + 1;
        }
    }
    ok(Val::Opaque(Rc::new(Opaque::FmtArgs(out))))
}
fn pieces(e: &Engine, st: &State, v: &Val) -> R<Rc<Opaque>> {
    match e.deep(st, v)? {
        Val::Opaque(o) => Ok(o),
        v => unsup(format!("format args {}", kind(&v))),
    }
}
/// primitive argument -> string; None when a user Display impl is needed
fn prim(e: &Engine, st: &State, v: &Val, simple: bool) -> R<Option<S>> {
    let Val::Opaque(o) = v else { return unsup("fmt arg") };
    let Opaque::FmtArg { kind: k, ty, val } = &**o else { return unsup("fmt arg") };
    let mut t = *ty;
    loop {
        match t.kind() {
            TyKind::Ref(_, i, _) => t = *i,
            _ => break,
        }
    }
    let is_string = t.is_str()
        || t.ty_adt_def().map(|d| e.lower.path(d.did()) == "alloc::string::String").unwrap_or(false);
    if !simple {
        return unsup("format options");
    }
    if *k == "display" {
        if is_string {
            return Ok(Some(e.s(st, val)?));
        }
        match t.kind() {
            TyKind::Int(_) | TyKind::Uint(_) => {
                let v = e.deep(st, val)?;
                let x = e.i(st, &v)?;
                let n = e.concretize(st, x)?;
                let w = term::width(x);
                let s = if matches!(t.kind(), TyKind::Int(_)) {
                    term::sext_to_i128(n, w).to_string()
                } else {
                    n.to_string()
                };
                return Ok(Some(S::lit(&s)));
            }
            TyKind::Char => {
                let v = e.deep(st, val)?;
                return Ok(Some(S::from_chars(vec![e.i(st, &v)?])));
            }
            TyKind::Bool => {
                let v = e.deep(st, val)?;
                return Ok(Some(S::ite(e.i(st, &v)?, S::lit("true"), S::lit("false"))));
            }
            TyKind::Adt(d, a) => {
                let p = e.lower.path(d.did());
                if p == "core::fmt::Arguments" {
                    let o = pieces(e, st, val)?;
                    return render_pieces(e, st, &o);
                }
                if p == "alloc::borrow::Cow" && a.types().next().map(|t| t.is_str()).unwrap_or(false) {
                    let v = e.deep(st, val)?;
                    return Ok(Some(e.s(st, &v)?));
                }
            }
            _ => {}
        }
    }
    Ok(None)
}
fn render_pieces(e: &Engine, st: &State, o: &Opaque) -> R<Option<S>> {
    let Opaque::FmtArgs(ps) = o else { return unsup("fmt args") };
    let mut r = S::lit("");
    for p in ps {
        let s = match p {
            FmtPiece::Lit(l) => S::lit(l),
            FmtPiece::Arg(v, simple) => match prim(e, st, v, *simple)? {
                Some(s) => s,
                None => return Ok(None),
            },
        };
        r = r.concat(&s);
        if r.leaves() > 200 {
            // decide something and try again
            r = r.prune(st);
            if r.leaves() > 200 {
                if let Some(g) = r.open_guard(st) {
                    return Err(Ex::Split(g));
                }
            }
        }
    }
    Ok(Some(r))
}
pub fn render(e: &Engine, st: &State, v: &Val) -> R<S> {
    let o = pieces(e, st, v)?;
    match render_pieces(e, st, &o)? {
        Some(s) => Ok(s),
        None => unsup("format of user type"),
    }
}
fn fmt_format(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let o = pieces(e, st, &c.args[0])?;
    match render_pieces(e, st, &o)? {
        Some(s) => ok(Val::Str(s)),
        None => Ok(Nat::Call(e.shim("fmt_to_string", &[])?, vec![c.args[0].clone()])),
    }
}
/// core::fmt::write(w: &mut dyn Write, args)
fn fmt_write(e: &mut Engine, _st: &mut State, c: &Call) -> NR {
    Ok(Nat::Call(e.shim("fmt_write", &[])?, vec![c.args[0].clone(), c.args[1].clone()]))
}
fn fmt_static(_: &mut Engine, _: &mut State, _: &Call) -> NR {
    ok(Val::none())
}
fn fmt_len(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let o = pieces(e, st, &c.args[0])?;
    let Opaque::FmtArgs(ps) = &*o else { return unsup("fmt") };
    ok(Val::usize(ps.len()))
}
/// raw_fmt_str(args, i) -> Option<String>-like: (bool, &str)
fn fmt_str(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let o = pieces(e, st, &c.args[0])?;
    let i = e.n(st, &c.args[1])?;
    let Opaque::FmtArgs(ps) = &*o else { return unsup("fmt") };
    match &ps[i] {
        FmtPiece::Lit(l) => ok(Val::some(Val::str(l))),
        FmtPiece::Arg(v, simple) => match prim(e, st, v, *simple)? {
            Some(s) => ok(Val::some(Val::Str(s))),
            None => ok(Val::none()),
        },
    }
}
/// raw_fmt_call(args, i, f) -> fmt::Result
fn fmt_call(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let o = pieces(e, st, &c.args[0])?;
    let i = e.n(st, &c.args[1])?;
    let Opaque::FmtArgs(ps) = &*o else { return unsup("fmt") };
    let FmtPiece::Arg(Val::Opaque(a), _) = &ps[i] else { return unsup("fmt") };
    let Opaque::FmtArg { kind: k, ty, val } = &**a else { return unsup("fmt") };
    let tcx = e.lower.tcx;
    let sym = match *k {
        "display" => rustc_span::Symbol::intern("Display"),
        "debug" => rustc_span::Symbol::intern("Debug"),
        _ => return unsup("fmt trait"),
    };
    let name = format!("core::fmt::{}", sym);
    let tr = match e.find_trait(&name) {
        Some(d) => d,
        None => return unsup("fmt trait lookup"),
    };
    let m = tcx.associated_items(tr).in_definition_order().find(|i| i.name().as_str() == "fmt").unwrap().def_id;
    match e.lower.resolve(m, tcx.mk_args(&[(*ty).into()])) {
        Some(inst) => Ok(Nat::Call(inst, vec![val.clone(), c.args[2].clone()])),
        None => unsup("fmt resolve"),
    }
}
/// Formatter::pad(&mut self, s)
fn fmt_pad(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let s = e.s(st, &c.args[1])?;
    Ok(Nat::Call(e.shim("fmt_pad", &[])?, vec![c.args[0].clone(), Val::Str(s)]))
}
fn int_fmt(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let t = e.i(st, &c.args[0])?;
    let n = e.concretize(st, t)?;
    let w = term::width(t);
    let s = if c.name.contains(" i8") || c.name.contains(" i16") || c.name.contains(" i32") || c.name.contains(" i64") || c.name.contains(" isize") || c.name.starts_with("<i") {
        term::sext_to_i128(n, w).to_string()
    } else {
        n.to_string()
    };
    Ok(Nat::Call(e.shim("fmt_pad", &[])?, vec![c.args[1].clone(), Val::str(&s)]))
}

// ---------------------------------------------------------------- misc

fn log_off(_: &mut Engine, _: &mut State, _: &Call) -> NR {
    ok(Val::variant(0, vec![]))
}
fn mem_replace(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let p = match st.res(&c.args[0])? {
        Val::Ptr(p) => p.clone(),
        _ => return unsup("mem::replace"),
    };
    let old = e.rd(st, &c.args[0])?;
    e.wr(st, &p, c.args[1].clone())?;
    ok(old)
}
fn mem_swap(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (Val::Ptr(p), Val::Ptr(q)) = (st.res(&c.args[0])?.clone(), st.res(&c.args[1])?.clone()) else {
        return unsup("mem::swap");
    };
    let (a, b) = (e.rd(st, &c.args[0])?, e.rd(st, &c.args[1])?);
    e.wr(st, &p, b)?;
    e.wr(st, &q, a)?;
    ok(Val::unit())
}
fn box_new(_: &mut Engine, _: &mut State, c: &Call) -> NR {
    ok(Val::Box(Rc::new(c.args[0].clone()), None))
}
fn box_uninit(_: &mut Engine, _: &mut State, _: &Call) -> NR {
    ok(Val::Box(Rc::new(Val::Undef), None))
}
fn box_write(_: &mut Engine, _: &mut State, c: &Call) -> NR {
    ok(Val::Box(Rc::new(c.args[1].clone()), None))
}
fn box_into_vec(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let s = e.own_seq(st, &c.args[0])?;
    ok(Val::Seq(s))
}
fn box_deref(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let p = match st.res(&c.args[0])? {
        Val::Ptr(p) => p.clone(),
        v => return unsup(format!("box deref {}", kind(v))),
    };
    match st.get(&e.lower.consts, p.base, &p.path)? {
        Val::Box(_, t) => {
            let mut q = (*p).clone();
            q.path.push(Proj::Content);
            q.meta = t.map(Meta::Dyn).unwrap_or(Meta::None);
            ok(Val::Ptr(Rc::new(q)))
        }
        v => unsup(format!("box deref of {}", kind(v))),
    }
}
fn read_via(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    ok(e.rd(st, &c.args[0])?)
}
fn write_via(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    match st.res(&c.args[0])?.clone() {
        Val::Ptr(p) => e.wr(st, &p, c.args[1].clone())?,
        _ => return unsup("ptr write"),
    }
    ok(Val::unit())
}
fn disc_value(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let ty = e.ty_arg(c, 0);
    let v = e.rd(st, &c.args[0])?;
    ok(e.discriminant(st, &v, ty)?)
}
fn type_id(e: &mut Engine, _st: &mut State, c: &Call) -> NR {
    let t = format!("{:?}", e.ty_arg(c, 0));
    ok(Val::str(&t))
}
fn const_eval_select(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    // (args tuple, const fn, runtime fn)
    let f = c.inst.args.types().nth(2).unwrap();
    let args = match st.res(&c.args[0])? {
        Val::Agg(a) => (**a).clone(),
        _ => return unsup("const_eval_select"),
    };
    if let TyKind::FnDef(d, ga) = f.kind() {
        match e.lower.resolve(*d, ga.no_bound_vars().unwrap()) {
            Some(i) => return Ok(Nat::Call(i, args)),
            None => {}
        }
    }
    unsup("const_eval_select")
}
fn falsef(_: &mut Engine, _: &mut State, _: &Call) -> NR {
    ok(Val::bool(false))
}
fn truef(_: &mut Engine, _: &mut State, _: &Call) -> NR {
    ok(Val::bool(true))
}
fn size_of(e: &mut Engine, _: &mut State, c: &Call) -> NR {
    let ty = e.ty_arg(c, 0);
    let l = e.lower.tcx.layout_of(crate::lower::env().as_query_input(ty));
    match l {
        Ok(l) => ok(Val::usize(l.size.bytes() as usize)),
        Err(_) => unsup("size_of"),
    }
}
fn bin2(op: term::Op) -> impl Fn(&mut Engine, &mut State, &Call) -> NR {
    move |e, st, c| {
        let (a, b) = (e.i(st, &c.args[0])?, e.i(st, &c.args[1])?);
        ok(Val::Int(term::bin(op, a, b)))
    }
}
fn w_add(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    bin2(term::Op::Add)(e, st, c)
}
fn w_sub(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    bin2(term::Op::Sub)(e, st, c)
}
fn w_mul(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    bin2(term::Op::Mul)(e, st, c)
}
fn signed(e: &Engine, c: &Call) -> bool {
    matches!(e.ty_arg(c, 0).kind(), TyKind::Int(_))
}
fn ovf(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (a, b) = (e.i(st, &c.args[0])?, e.i(st, &c.args[1])?);
    let w = term::width(a);
    if w > 64 {
        return unsup("wide overflow op");
    }
    let n = canon(c.name);
    let op = if n.contains("add_with") {
        term::Op::Add
    } else if n.contains("sub_with") {
        term::Op::Sub
    } else {
        term::Op::Mul
    };
    let r = term::bin(op, a, b);
    let x = |t| if signed(e, c) { term::sext(w * 2, t) } else { term::zext(w * 2, t) };
    let o = term::not(term::eq(term::bin(op, x(a), x(b)), x(r)));
    ok(Val::agg(vec![Val::Int(r), Val::Int(o)]))
}
fn sat(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (a, b) = (e.i(st, &c.args[0])?, e.i(st, &c.args[1])?);
    if signed(e, c) {
        return unsup("signed saturating op");
    }
    let w = term::width(a);
    let r = if canon(c.name).contains("saturating_sub") {
        term::ite(term::ult(a, b), term::c(w, 0), term::bin(term::Op::Sub, a, b))
    } else {
        let s = term::bin(term::Op::Add, a, b);
        term::ite(term::ult(s, a), term::c(w, !0), s)
    };
    ok(Val::Int(r))
}
fn three_way(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let (a, b) = (e.i(st, &c.args[0])?, e.i(st, &c.args[1])?);
    let lt = if signed(e, c) { term::slt(a, b) } else { term::ult(a, b) };
    ok(cmp_val(lt, term::eq(a, b)))
}
fn atomic_load(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    read_via(e, st, c)
}

// regex
fn regex_new(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let p = label(e, st, &c.args[0])?;
    if !e.regexes.contains_key(&p) {
        match crate::regexsym::Dfa::new(&p) {
            Ok(d) => {
                e.regexes.insert(p.clone(), Rc::new(d));
            }
            Err(_) => return ok(Val::err(Val::Opaque(Rc::new(Opaque::Tagged("regex-error", vec![]))))),
        }
    }
    ok(Val::ok(Val::Opaque(Rc::new(Opaque::Regex(p)))))
}
fn regex_of(e: &mut Engine, st: &mut State, v: &Val) -> R<Rc<crate::regexsym::Dfa>> {
    let r = e.deep(st, v)?;
    let Val::Opaque(o) = &r else { return unsup("regex") };
    let Opaque::Regex(p) = &**o else { return unsup("regex") };
    Ok(e.regexes[p].clone())
}
fn regex_match(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let d = regex_of(e, st, &c.args[0])?;
    let s = e.s(st, &c.args[1])?;
    if d.dfa.is_none() && s.as_const().is_none() {
        let (_, h) = regex_hay(e, st, &d, &c.args[1])?;
        return ok(Val::bool(!d.captures(&h, 0, 1).is_empty()));
    }
    match d.is_match(&s) {
        Ok(t) => ok(Val::Int(t)),
        Err(m) => unsup(m),
    }
}
/// the haystack's characters, and a concrete string on which the regex does the same
fn regex_hay(e: &mut Engine, st: &mut State, d: &crate::regexsym::Dfa, v: &Val) -> R<(Vec<T>, String)> {
    let s = e.s(st, v)?;
    let s = e.leaf(st, &s)?;
    let ch = s.chars();
    let h = d.represent(&ch, &mut |t| st.decide(t))?;
    Ok((ch, h))
}
fn regex_sub(ch: &[T], h: &str, a: usize, b: usize) -> S {
    let (x, y) = (h[..a].chars().count(), h[..b].chars().count());
    S::from_chars(ch[x..y].to_vec())
}
fn regex_matchv(ch: &[T], g: (usize, usize)) -> Val {
    Val::agg(vec![Val::Str(S::from_chars(ch.to_vec())), Val::usize(g.0), Val::usize(g.1)])
}
fn regex_caps(d: &crate::regexsym::Dfa, ch: &[T], h: &str, c: &[Option<(usize, usize)>]) -> Val {
    let names = d.vm.get_nfa().group_info().pattern_names(regex_automata::PatternID::ZERO);
    let names = names.map(|n| n.map(|n| Val::some(Val::str(n))).unwrap_or(Val::none())).collect();
    let gs = c.iter().map(|g| g.map(|g| Val::some(regex_matchv(ch, g))).unwrap_or(Val::none())).collect();
    let tx = c.iter().map(|g| g.map(|(a, b)| Val::some(Val::Str(regex_sub(ch, h, a, b)))).unwrap_or(Val::none())).collect();
    Val::Opaque(Rc::new(Opaque::Tagged("captures", vec![Val::seq(names), Val::seq(gs), Val::seq(tx)])))
}
fn regex_find(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let d = regex_of(e, st, &c.args[0])?;
    let (ch, h) = regex_hay(e, st, &d, &c.args[1])?;
    let from = if c.args.len() > 2 { e.n(st, &c.args[2])? } else { 0 };
    let n = canon(c.name);
    let m = n.rsplit("::").next().unwrap();
    let all = d.captures(&h, from, if m.ends_with("_iter") { usize::MAX } else { 1 });
    let one = |m: &Vec<Option<(usize, usize)>>| regex_matchv(&ch, m[0].unwrap());
    match m {
        "find" | "find_at" => ok(all.first().map(|m| Val::some(one(m))).unwrap_or(Val::none())),
        "shortest_match" => unsup("shortest_match"),
        "find_iter" => ok(Val::iter(all.iter().map(one).collect())),
        "captures" | "captures_at" => ok(all.first().map(|m| Val::some(regex_caps(&d, &ch, &h, m))).unwrap_or(Val::none())),
        "captures_iter" => ok(Val::iter(all.iter().map(|m| regex_caps(&d, &ch, &h, m)).collect())),
        "is_match_at" => ok(Val::bool(!all.is_empty())),
        _ => unsup("regex method"),
    }
}
fn regex_pieces(ch: &[T], h: &str, all: &[Vec<Option<(usize, usize)>>]) -> Vec<Val> {
    let mut a = 0;
    let mut v = vec![];
    for m in all {
        let (x, y) = m[0].unwrap();
        v.push(Val::Str(regex_sub(ch, h, a, x)));
        a = y;
    }
    v.push(Val::Str(regex_sub(ch, h, a, h.len())));
    v
}
fn regex_split(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let d = regex_of(e, st, &c.args[0])?;
    let (ch, h) = regex_hay(e, st, &d, &c.args[1])?;
    let lim = if c.args.len() > 2 { e.n(st, &c.args[2])? } else { usize::MAX };
    if lim == 0 {
        return ok(Val::iter(vec![]));
    }
    ok(Val::iter(regex_pieces(&ch, &h, &d.captures(&h, 0, lim - 1))))
}
fn regex_replace(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let d = regex_of(e, st, &c.args[0])?;
    let (ch, h) = regex_hay(e, st, &d, &c.args[1])?;
    let n = canon(c.name);
    let (lim, rep) = match n.rsplit("::").next().unwrap() {
        "replace" => (1, 2),
        "replace_all" => (usize::MAX, 2),
        _ => match e.n(st, &c.args[2])? {
            0 => (usize::MAX, 3),
            n => (n, 3),
        },
    };
    let all = d.captures(&h, 0, lim);
    let pieces = regex_pieces(&ch, &h, &all);
    let rty = c.inst.args.types().last().unwrap();
    if let TyKind::Closure(..) | TyKind::FnDef(..) | TyKind::FnPtr(..) = rty.kind() {
        let tcx = e.lower.tcx;
        let sig = match rty.kind() {
            TyKind::Closure(_, a) => tcx.instantiate_bound_regions_with_erased(tcx.signature_unclosure(a.as_closure().sig(), rustc_hir::Safety::Safe)),
            _ => tcx.instantiate_bound_regions_with_erased(rty.fn_sig(tcx)),
        };
        let sig = tcx.erase_and_anonymize_regions(sig);
        let TyKind::Ref(_, cty, _) = sig.inputs()[0].kind() else { return unsup("replacer") };
        let out = sig.output();
        let caps = all.iter().map(|m| regex_caps(&d, &ch, &h, m)).collect();
        let f = e.shim("re_replace_with", &[(*cty).into(), out.into(), rty.into()])?;
        return Ok(Nat::Call(f, vec![Val::seq(pieces), Val::seq(caps), c.args[rep].clone()]));
    }
    let raw = c.name.contains("NoExpand") || matches!(rty.kind(), TyKind::Adt(d, _) if e.lower.path(d.did()).ends_with("NoExpand"));
    if raw {
        return unsup("NoExpand");
    }
    let t = e.s(st, &c.args[rep])?;
    let t = e.leaf(st, &t)?;
    let to = t.chars();
    // template expansion needs a known text, except when it has no '$'
    let mut out: Vec<T> = vec![];
    let lit = t.as_const().map(|x| x.to_string());
    if lit.is_none() {
        for x in &to {
            if st.decide(term::eq(*x, term::c(32, '$' as u128)))? {
                return unsup("symbolic replacement template");
            }
        }
    }
    let push = |out: &mut Vec<T>, v: &Val| {
        if let Val::Str(s) = v {
            out.extend(s.chars())
        }
    };
    for (k, p) in pieces.iter().enumerate() {
        push(&mut out, p);
        if let Some(m) = all.get(k) {
            match &lit {
                None => out.extend(to.iter().cloned()),
                Some(l) => {
                    let mut buf = String::new();
                    regex_automata::util::interpolate::string(
                        l,
                        |i, d: &mut String| d.push(char::from_u32(0xF0000 + i as u32).unwrap()),
                        |name| d.vm.get_nfa().group_info().to_index(regex_automata::PatternID::ZERO, name),
                        &mut buf,
                    );
                    for x in buf.chars() {
                        let u = x as u32;
                        if u >= 0xF0000 {
                            if let Some(Some((a, b))) = m.get((u - 0xF0000) as usize) {
                                out.extend(regex_sub(&ch, &h, *a, *b).chars());
                            }
                        } else {
                            out.push(term::c(32, u as u128));
                        }
                    }
                }
            }
        }
    }
    // Cow::Borrowed without a match, Cow::Owned otherwise
    ok(Val::variant(if all.is_empty() { 0 } else { 1 }, vec![Val::Str(S::from_chars(out))]))
}
fn caps_part(e: &mut Engine, st: &mut State, v: &Val, k: usize) -> R<Vec<Val>> {
    let r = e.deep(st, v)?;
    let Val::Opaque(o) = &r else { return unsup("captures") };
    let Opaque::Tagged("captures", p) = &**o else { return unsup("captures") };
    let Val::Seq(s) = &p[k] else { return unsup("captures") };
    Ok(s.items.clone())
}
fn caps_get(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let i = e.n(st, &c.args[1])?;
    ok(caps_part(e, st, &c.args[0], 1)?.get(i).cloned().unwrap_or(Val::none()))
}
fn caps_index_of(e: &mut Engine, st: &mut State, c: &Call) -> R<Option<usize>> {
    let n = label(e, st, &c.args[1])?;
    for (i, v) in caps_part(e, st, &c.args[0], 0)?.iter().enumerate() {
        if let Val::Enum(x) = v {
            if let Some((1, p)) = x.pays.first() {
                if e.s(st, &p[0])?.as_const() == Some(n.as_str()) {
                    return Ok(Some(i));
                }
            }
        }
    }
    Ok(None)
}
fn caps_name(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    match caps_index_of(e, st, c)? {
        Some(i) => ok(caps_part(e, st, &c.args[0], 1)?[i].clone()),
        None => ok(Val::none()),
    }
}
fn caps_index(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let i = match st.res(&c.args[1])? {
        Val::Int(_) => Some(e.n(st, &c.args[1])?),
        _ => caps_index_of(e, st, c)?,
    };
    let tx = caps_part(e, st, &c.args[0], 2)?;
    match i.and_then(|i| tx.get(i).cloned()) {
        Some(Val::Enum(x)) if x.pays.first().map_or(false, |p| p.0 == 1) => ok(x.pays[0].1[0].clone()),
        _ => Err(Ex::Panic("no group at index".into())),
    }
}
fn caps_len(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    ok(Val::usize(caps_part(e, st, &c.args[0], 1)?.len()))
}
fn caps_iter(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    ok(Val::iter(caps_part(e, st, &c.args[0], 1)?))
}
fn re_as_str(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let r = e.deep(st, &c.args[0])?;
    let Val::Opaque(o) = &r else { return unsup("regex") };
    let Opaque::Regex(p) = &**o else { return unsup("regex") };
    ok(Val::str(p))
}
fn match_field(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let m = e.deep(st, &c.args[0])?;
    let Val::Agg(f) = &m else { return unsup("regex match") };
    let (a, b) = (e.i(st, &f[1])?, e.i(st, &f[2])?);
    let n = canon(c.name);
    match n.rsplit("::").next().unwrap() {
        "start" => ok(Val::Int(a)),
        "end" => ok(Val::Int(b)),
        "len" => ok(Val::Int(term::bin(term::Op::Sub, b, a))),
        "is_empty" => ok(Val::Int(term::eq(a, b))),
        "range" => ok(Val::agg(vec![Val::Int(a), Val::Int(b)])),
        _ => {
            let (a, b) = (e.concretize(st, a)?, e.concretize(st, b)?);
            let s = e.s(st, &f[0])?;
            let s = e.leaf(st, &s)?;
            let (mut o, mut out) = (0u128, vec![]);
            for ch in s.chars() {
                if o >= a && o < b {
                    out.push(ch);
                }
                o += e.concretize(st, char_len(ch))?;
            }
            ok(Val::Str(S::from_chars(out)))
        }
    }
}
fn re_escape(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let s = e.s(st, &c.args[0])?;
    let s = e.leaf(st, &s)?;
    let mut out = vec![];
    for ch in s.chars() {
        let mut meta = term::FALSE;
        for m in "\\.+*?()|[]{}^$#&-~".chars() {
            meta = term::or(meta, term::eq(ch, term::c(32, m as u128)));
        }
        if st.decide(meta)? {
            out.push(term::c(32, '\\' as u128));
        }
        out.push(ch);
    }
    ok(Val::Str(S::from_chars(out)))
}
fn reb_new(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let p = e.s(st, &c.args[0])?;
    ok(Val::Opaque(Rc::new(Opaque::Tagged("regex-builder", vec![Val::str(""), Val::Str(p)]))))
}
fn reb_flag(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let p = e.ptr(st, &c.args[0])?;
    let b = e.deep(st, &c.args[0])?;
    let Val::Opaque(o) = &b else { return unsup("regex builder") };
    let Opaque::Tagged("regex-builder", f) = &**o else { return unsup("regex builder") };
    let n = canon(c.name);
    let l = match n.rsplit("::").next().unwrap() {
        "case_insensitive" => "i",
        "multi_line" => "m",
        "dot_matches_new_line" => "s",
        "swap_greed" => "U",
        "ignore_whitespace" => "x",
        "unicode" => "u",
        "size_limit" | "dfa_size_limit" | "nest_limit" => return ok(c.args[0].clone()),
        _ => return unsup("regex builder option"),
    };
    let on = st.decide(e.i(st, &c.args[1])?)?;
    let old = e.s(st, &f[0])?;
    let add = format!("(?{}{})", if on { "" } else { "-" }, l);
    let nv = Opaque::Tagged("regex-builder", vec![Val::Str(old.concat(&S::lit(&add))), f[1].clone()]);
    e.wr(st, &p, Val::Opaque(Rc::new(nv)))?;
    ok(c.args[0].clone())
}
fn reb_build(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let b = e.deep(st, &c.args[0])?;
    let Val::Opaque(o) = &b else { return unsup("regex builder") };
    let Opaque::Tagged("regex-builder", f) = &**o else { return unsup("regex builder") };
    let s = e.s(st, &f[0])?.concat(&e.s(st, &f[1])?);
    regex_new(e, st, &Call { inst: c.inst, name: c.name, args: &[Val::Str(s)] })
}
fn serde_err(_: &mut Engine, _: &mut State, _: &Call) -> NR {
    ok(Val::Opaque(Rc::new(Opaque::Tagged("serde-error", vec![]))))
}

// chars
fn ranges_of(f: &dyn Fn(char) -> bool) -> Vec<(u32, u32)> {
    let mut v = vec![];
    let mut lo: Option<u32> = None;
    for x in 0..=0x110000u32 {
        let h = char::from_u32(x).map(|c| f(c)).unwrap_or(false);
        match (lo, h) {
            (None, true) => lo = Some(x),
            (Some(a), false) => {
                v.push((a, x - 1));
                lo = None
            }
            _ => {}
        }
    }
    v
}
thread_local! {
    static RANGES: std::cell::RefCell<HashMap<&'static str, Rc<Vec<(u32, u32)>>>> = Default::default();
}
fn char_pred(name: &'static str, t: T) -> T {
    let f: fn(char) -> bool = match name {
        "is_alphabetic" => |c| c.is_alphabetic(),
        "is_alphanumeric" => |c| c.is_alphanumeric(),
        "is_numeric" => |c| c.is_numeric(),
        "is_uppercase" => |c| c.is_uppercase(),
        "is_lowercase" => |c| c.is_lowercase(),
        "is_whitespace" => |c| c.is_whitespace(),
        "is_control" => |c| c.is_control(),
        "is_ascii_digit" => |c| c.is_ascii_digit(),
        "is_ascii_alphabetic" => |c| c.is_ascii_alphabetic(),
        "is_ascii_alphanumeric" => |c| c.is_ascii_alphanumeric(),
        "is_ascii_uppercase" => |c| c.is_ascii_uppercase(),
        "is_ascii_lowercase" => |c| c.is_ascii_lowercase(),
        "is_ascii_punctuation" => |c| c.is_ascii_punctuation(),
        "is_ascii_whitespace" => |c| c.is_ascii_whitespace(),
        "is_ascii_hexdigit" => |c| c.is_ascii_hexdigit(),
        "is_ascii_control" => |c| c.is_ascii_control(),
        "is_ascii_graphic" => |c| c.is_ascii_graphic(),
        _ => |c| c.is_ascii(),
    };
    if let Some(x) = term::as_const(t) {
        return term::b(char::from_u32(x as u32).map(f).unwrap_or(false));
    }
    let rs = RANGES.with(|r| r.borrow_mut().entry(name).or_insert_with(|| Rc::new(ranges_of(&f))).clone());
    let (lo, hi) = term::bounds(t, 12);
    let mut r = term::FALSE;
    for (a, b) in rs.iter() {
        if (*a as u128) > hi || (*b as u128) < lo {
            continue;
        }
        r = term::or(r, in_range(t, *a, *b));
    }
    r
}
macro_rules! cpred {
    ($($f:ident $n:literal),*) => {
        $(fn $f(e: &mut Engine, st: &mut State, c: &Call) -> NR {
            let t = e.i(st, &c.args[0])?;
            if term::width(t) == 8 {
                return ok(Val::Int(char_pred($n, term::zext(32, t))));
            }
            ok(Val::Int(char_pred($n, t)))
        })*
        fn reg_chars(m: &mut HashMap<&'static str, NFn>) {
            $(
                m.insert(concat!("core::char::methods::<impl char>::", $n), $f);
                m.insert(concat!("core::num::<impl u8>::", $n), $f);
            )*
        }
    };
}
cpred!(c1 "is_alphabetic", c2 "is_alphanumeric", c3 "is_numeric", c4 "is_uppercase", c5 "is_lowercase", c6 "is_whitespace",
    c7 "is_control", c8 "is_ascii_digit", c9 "is_ascii_alphabetic", c10 "is_ascii_alphanumeric", c11 "is_ascii_uppercase",
    c12 "is_ascii_lowercase", c13 "is_ascii_punctuation", c14 "is_ascii_whitespace", c15 "is_ascii_hexdigit", c16 "is_ascii_control",
    c17 "is_ascii_graphic", c18 "is_ascii");

pub fn lower_char(t: T) -> T {
    let w = term::width(t);
    term::ite(in_range(t, 65, 90), term::bin(term::Op::Or, t, term::c(w, 32)), t)
}
pub fn upper_char(t: T) -> T {
    let w = term::width(t);
    term::ite(in_range(t, 97, 122), term::bin(term::Op::Xor, t, term::c(w, 32)), t)
}
fn case_iter(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let t = e.i(st, &c.args[0])?;
    let lower = canon(c.name).ends_with("to_lowercase");
    if let Some(x) = term::as_const(t) {
        let ch = char::from_u32(x as u32).unwrap_or('\0');
        let v: Vec<char> = if lower { ch.to_lowercase().collect() } else { ch.to_uppercase().collect() };
        return ok(Val::iter(v.into_iter().map(|c| Val::Int(term::c(32, c as u128))).collect()));
    }
    if term::bounds(t, 12).1 >= 128 {
        return unsup("case of symbolic non-ASCII char");
    }
    ok(Val::iter(vec![Val::Int(if lower { lower_char(t) } else { upper_char(t) })]))
}
fn ascii_lower(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let t = e.i(st, &c.args[0])?;
    ok(Val::Int(lower_char(t)))
}
fn ascii_upper(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let t = e.i(st, &c.args[0])?;
    ok(Val::Int(upper_char(t)))
}
fn len_utf8(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let t = e.i(st, &c.args[0])?;
    ok(Val::Int(char_len(t)))
}
fn ptr_eq(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let _ = e;
    match (st.res(&c.args[0])?, st.res(&c.args[1])?) {
        (Val::Ptr(a), Val::Ptr(b)) => ok(Val::bool(a == b)),
        _ => unsup("ptr eq"),
    }
}
fn struct_eq(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let t = e.eq(st, &c.args[0], &c.args[1])?;
    ok(Val::Int(t))
}
fn struct_ne(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let t = e.eq(st, &c.args[0], &c.args[1])?;
    ok(Val::Int(term::not(t)))
}
/// ptr.add(n) and friends over the elements of a plain sequence
fn ptr_add(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let n = e.n(st, &c.args[1])? as i64;
    let n = if c.name.ends_with("sub") { -n } else { n };
    let p = match st.res(&c.args[0])? {
        Val::Ptr(p) => p.clone(),
        v if n == 0 => return ok(v.clone()),
        v => return unsup(format!("pointer arithmetic on {}", kind(v))),
    };
    if n == 0 {
        return ok(Val::Ptr(p));
    }
    let Some(Proj::Index(i)) = p.path.last() else { return unsup("pointer arithmetic") };
    match st.get(&e.lower.consts, p.base, &p.path[..p.path.len() - 1])? {
        Val::Seq(s) if s.guards.is_empty() => {}
        _ => return unsup("pointer arithmetic in a guarded sequence"),
    }
    let k = *i as i64 + n;
    if k < 0 {
        return unsup("pointer arithmetic");
    }
    let mut path = p.path.clone();
    *path.last_mut().unwrap() = Proj::Index(k as u32);
    ok(Val::ptr(p.base, path, Meta::None))
}
fn slice_parts(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let n = e.n(st, &c.args[1])?;
    let Val::Ptr(p) = st.res(&c.args[0])? else { return unsup("slice from parts") };
    if let Some(Proj::Index(i)) = p.path.last() {
        let path = p.path[..p.path.len() - 1].to_vec();
        match st.get(&e.lower.consts, p.base, &path)? {
            Val::Seq(s) if s.guards.is_empty() && *i as usize + n <= s.items.len() => {
                return ok(Val::ptr(p.base, path, Meta::Slice(*i, n as u32)))
            }
            _ => {}
        }
    }
    unsup("slice from parts")
}
fn any_type_id_eq(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    struct_eq(e, st, c)
}
fn process_exit(_: &mut Engine, _: &mut State, _: &Call) -> NR {
    Err(Ex::Panic("process exit".into()))
}
fn box_dyn_call(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    // <Box<F> as FnOnce<A>>::call_once(box, args) and friends
    let n = canon(c.name);
    let tcx = e.lower.tcx;
    let (tr, m) = if n.ends_with("call_once") {
        (tcx.lang_items().fn_once_trait(), "call_once")
    } else if n.ends_with("call_mut") {
        (tcx.lang_items().fn_mut_trait(), "call_mut")
    } else {
        (tcx.lang_items().fn_trait(), "call")
    };
    let recv = e.rd(st, &c.args[0])?;
    let (inner, dynty, ptr) = match (&recv, st.res(&c.args[0])?) {
        (Val::Box(b, t), Val::Ptr(p)) => {
            let mut q = (**p).clone();
            q.path.push(Proj::Content);
            q.meta = Meta::None;
            ((**b).clone(), *t, Val::Ptr(Rc::new(q)))
        }
        (Val::Box(b, t), _) => ((**b).clone(), *t, Val::Undef),
        _ => return unsup("box call"),
    };
    // impl generics: <Args, F, A>
    let tys: Vec<_> = c.inst.args.types().collect();
    let args_ty = tys[0];
    let f = dynty.unwrap_or(tys[1]);
    let item = tcx.associated_items(tr.unwrap()).in_definition_order().find(|i| i.name().as_str() == m).unwrap().def_id;
    let inst = match e.lower.resolve(item, tcx.mk_args(&[f.into(), args_ty.into()])) {
        Some(i) => i,
        None => return unsup("box call resolve"),
    };
    let self_arg = if m == "call_once" { inner } else { ptr };
    let mut args = vec![self_arg];
    let spread = tcx.is_closure_like(inst.def_id()) && matches!(inst.def, rustc_middle::ty::InstanceKind::Item(_));
    if spread {
        match st.res(&c.args[1])? {
            Val::Agg(a) => args.extend(a.iter().cloned()),
            _ => return unsup("box call args"),
        }
    } else {
        args.push(c.args[1].clone());
    }
    Ok(Nat::Call(inst, args))
}

fn nonzero_new(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let t = e.i(st, &c.args[0])?;
    let z = term::eq(t, term::c(term::width(t), 0));
    ok(Val::Enum(Rc::new(EnumV {
        disc: term::ite(z, term::c(32, 0), term::c(32, 1)),
        pays: vec![(1, Rc::new(vec![Val::Int(t)]))],
    })))
}
pub fn register(m: &mut HashMap<&'static str, NFn>) {
    reg_chars(m);
    let mut r = |n: &'static str, f: NFn| {
        m.insert(n, f);
    };
    for (n, f) in [
        ("any_bool", any_bool as NFn),
        ("any_choice", any_choice),
        ("any_string", any_string),
        ("pick", pick),
        ("select", select),
        ("assume", assume),
        ("check", check),
        ("reach", reach),
        ("hash_order", hash_order),
        ("show", unit_fn),
        ("show_json", unit_fn),
    ] {
        r(Box::leak(format!("symrt::imp::{}", n).into_boxed_str()), f);
    }
    r("core::num::nonzero::NonZero::new", nonzero_new);
    r("symrt::shims::raw_fmt_len", fmt_len);
    r("symrt::shims::raw_fmt_str", fmt_str);
    r("symrt::shims::raw_fmt_call", fmt_call);
    // panics
    for n in [
        "core::panicking::panic",
        "core::panicking::panic_nounwind",
        "core::panicking::panic_explicit",
        "core::panicking::unreachable_display",
        "core::panicking::panic_display",
        "core::panicking::panic_str_2015",
        "core::panicking::panic_bounds_check",
        "core::panicking::assert_failed",
        "core::panicking::assert_failed_inner",
        "core::panicking::panic_misaligned_pointer_dereference",
        "core::option::unwrap_failed",
        "core::option::expect_failed",
        "core::result::unwrap_failed",
        "core::str::slice_error_fail",
        "core::slice::index::slice_index_fail",
        "std::panicking::begin_panic",
        "std::panicking::begin_panic_handler",
        "alloc::alloc::handle_alloc_error",
        "core::intrinsics::abort",
        "core::cell::panic_already_borrowed",
    ] {
        r(n, panic_fn);
    }
    r("core::panicking::panic_fmt", panic_fmt);
    r("std::rt::panic_fmt", panic_fmt);
    r("core::panicking::panic_nounwind_fmt", panic_fmt);
    r("std::process::exit", process_exit);
    r("std::process::abort", process_exit);
    r("std::io::stdio::_print", unit_fn);
    r("std::io::stdio::_eprint", unit_fn);
    // fmt
    r("core::fmt::rt::Argument::new_display", fmt_arg);
    r("core::fmt::rt::Argument::new_debug", fmt_arg);
    r("core::fmt::rt::Argument::new_lower_hex", fmt_arg);
    r("core::fmt::rt::Argument::new_upper_hex", fmt_arg);
    r("core::fmt::rt::<impl core::fmt::Arguments>::new", args_new);
    r("core::fmt::rt::<impl core::fmt::Arguments>::from_str", args_const);
    r("core::fmt::rt::<impl core::fmt::Arguments>::new_const", args_const);
    r("core::fmt::Arguments::new", args_new);
    r("core::fmt::Arguments::from_str", args_const);
    r("core::fmt::Arguments::from_str_nonconst", args_const);
    r("core::fmt::Arguments::new_const", args_const);
    r("alloc::fmt::format", fmt_format);
    r("core::fmt::write", fmt_write);
    r("core::fmt::Formatter::pad", fmt_pad);
    // log
    r("log::max_level", log_off);
    r("log::__private_api::log", unit_fn);
    r("log::__private_api::log_impl", unit_fn);
    r("log::__private_api::enabled", falsef);
    // mem / ptr / box
    r("core::mem::replace", mem_replace);
    r("core::mem::swap", mem_swap);
    r("core::mem::drop", unit_fn);
    r("core::mem::forget", unit_fn);
    r("core::ptr::drop_in_place", unit_fn);
    r("core::ptr::read", read_via);
    r("core::ptr::write", write_via);
    r("core::intrinsics::read_via_copy", read_via);
    r("core::intrinsics::write_via_move", write_via);
    r("alloc::boxed::Box::new", box_new);
    r("alloc::boxed::box_new", box_new);
    r("alloc::boxed::Box::pin", box_new);
    r("alloc::boxed::Box::new_uninit", box_uninit);
    r("core::intrinsics::write_box_via_move", box_write);
    r("alloc::intrinsics::write_box_via_move", box_write);
    r("alloc::boxed::Box::write", box_write);
    r("core::fmt::Arguments::as_statically_known_str", fmt_static);
    r("alloc::boxed::box_assume_init_into_vec_unsafe", box_into_vec);
    r("alloc::boxed::Box::assume_init", id_fn);
    r("<alloc::boxed::Box as core::clone::Clone>::clone", clone_fn);
    r("<alloc::boxed::Box as core::ops::deref::Deref>::deref", box_deref);
    r("<alloc::boxed::Box as core::ops::deref::DerefMut>::deref_mut", box_deref);
    r("<alloc::boxed::Box as core::convert::AsRef>::as_ref", box_deref);
    r("<alloc::boxed::Box as core::convert::AsMut>::as_mut", box_deref);
    r("<alloc::boxed::Box as core::borrow::Borrow>::borrow", box_deref);
    r("<alloc::boxed::Box as core::cmp::PartialEq>::eq", struct_eq);
    r("<alloc::boxed::Box as core::cmp::PartialEq>::ne", struct_ne);
    r("<alloc::boxed::Box as core::ops::function::FnOnce>::call_once", box_dyn_call);
    r("<alloc::boxed::Box as core::ops::function::FnMut>::call_mut", box_dyn_call);
    r("<alloc::boxed::Box as core::ops::function::Fn>::call", box_dyn_call);
    r("<alloc::boxed::Box as core::convert::From>::from", box_new);
    r("core::ptr::eq", ptr_eq);
    for t in ["const_ptr::<impl *const T>", "mut_ptr::<impl *mut T>"] {
        for f in ["add", "sub"] {
            r(Box::leak(format!("core::ptr::{}::{}", t, f).into_boxed_str()), ptr_add);
        }
    }
    r("core::slice::raw::from_raw_parts", slice_parts);
    r("core::slice::raw::from_raw_parts_mut", slice_parts);
    // intrinsics
    r("core::intrinsics::discriminant_value", disc_value);
    r("core::intrinsics::type_id", type_id);
    r("core::any::TypeId::of", type_id);
    r("<core::any::TypeId as core::cmp::PartialEq>::eq", any_type_id_eq);
    r("core::intrinsics::const_eval_select", const_eval_select);
    r("core::intrinsics::is_val_statically_known", falsef);
    r("core::intrinsics::needs_drop", truef);
    r("core::intrinsics::size_of", size_of);
    r("core::mem::size_of", size_of);
    for n in ["likely", "unlikely", "black_box", "transmute", "transmute_unchecked"] {
        r(Box::leak(format!("core::intrinsics::{}", n).into_boxed_str()), id_fn);
    }
    r("core::hint::black_box", id_fn);
    r("core::hint::must_use", id_fn);
    for n in ["assume", "cold_path", "assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid"] {
        r(Box::leak(format!("core::intrinsics::{}", n).into_boxed_str()), unit_fn);
    }
    r("core::hint::assert_unchecked", unit_fn);
    r("core::intrinsics::wrapping_add", w_add);
    r("core::intrinsics::wrapping_sub", w_sub);
    r("core::intrinsics::wrapping_mul", w_mul);
    r("core::intrinsics::unchecked_add", w_add);
    r("core::intrinsics::unchecked_sub", w_sub);
    r("core::intrinsics::unchecked_mul", w_mul);
    r("core::intrinsics::add_with_overflow", ovf);
    r("core::intrinsics::sub_with_overflow", ovf);
    r("core::intrinsics::mul_with_overflow", ovf);
    r("core::intrinsics::saturating_sub", sat);
    r("core::intrinsics::saturating_add", sat);
    r("core::intrinsics::three_way_compare", three_way);
    r("core::intrinsics::atomic_load", atomic_load);
    r("core::intrinsics::ctpop", ctpop);
    r("symrt::shims::raw_leak", raw_leak);
    r("lazy_static::lazy::Lazy::get", cell_shim);
    r("std::sys::thread_local::native::lazy::Storage::get_or_init", cell_shim);
    r("core::ptr::const_ptr::<impl *const T>::is_null", is_null);
    r("core::ptr::mut_ptr::<impl *mut T>::is_null", is_null);
    r("symrt::imp::statics_fresh", statics_fresh);
    r("symrt::imp::statics_back", statics_back);
    r("core::intrinsics::atomic_store", atomic_store);
    for n in ["xchg", "xadd", "xsub", "and", "or", "xor", "umax", "umin"] {
        r(Box::leak(format!("core::intrinsics::atomic_{}", n).into_boxed_str()), atomic_rmw);
    }
    for n in ["get", "get_mut", "raw_get"] {
        r(Box::leak(format!("core::cell::UnsafeCell::{}", n).into_boxed_str()), unsafe_cell_get);
    }
    r("alloc::vec::<impl core::convert::TryFrom for [T; N]>::try_from", array_from_vec);
    // regex
    r("regex::regex::string::Regex::new", regex_new);
    r("regex::regex::string::Regex::is_match", regex_match);
    r("regex::Regex::new", regex_new);
    r("regex::Regex::is_match", regex_match);
    for base in ["regex::regex::string::Regex", "regex::Regex"] {
        let mut rr = |n: &str, f: NFn| r(Box::leak(format!("{}::{}", base, n).into_boxed_str()), f);
        for n in ["find", "find_at", "find_iter", "captures", "captures_at", "captures_iter", "is_match_at"] {
            rr(n, regex_find);
        }
        for n in ["split", "splitn"] {
            rr(n, regex_split);
        }
        for n in ["replace", "replace_all", "replacen"] {
            rr(n, regex_replace);
        }
        rr("as_str", re_as_str);
    }
    for n in ["start", "end", "len", "is_empty", "range", "as_str"] {
        r(Box::leak(format!("regex::regex::string::Match::{}", n).into_boxed_str()), match_field);
    }
    r("regex::regex::string::Captures::get", caps_get);
    r("regex::regex::string::Captures::name", caps_name);
    r("regex::regex::string::Captures::len", caps_len);
    r("regex::regex::string::Captures::iter", caps_iter);
    r("<regex::regex::string::Captures as core::ops::index::Index>::index", caps_index);
    r("regex::escape", re_escape);
    r("regex_syntax::escape", re_escape);
    r("regex::builders::string::RegexBuilder::new", reb_new);
    r("regex::builders::string::RegexBuilder::build", reb_build);
    for n in ["case_insensitive", "multi_line", "dot_matches_new_line", "swap_greed", "ignore_whitespace", "unicode", "size_limit", "dfa_size_limit", "nest_limit"] {
        r(Box::leak(format!("regex::builders::string::RegexBuilder::{}", n).into_boxed_str()), reb_flag);
    }
    // serde errors carry no observable content here
    r("<serde_json::error::Error as serde::de::Error>::custom", serde_err);
    r("<serde_json::error::Error as serde::ser::Error>::custom", serde_err);
    r("<serde_json::error::Error as serde::de::Error>::invalid_type", serde_err);
    r("<serde_json::error::Error as serde::de::Error>::invalid_value", serde_err);
    r("serde_json::error::Error::syntax", serde_err);
    // chars
    r("core::char::methods::<impl char>::to_lowercase", case_iter);
    r("core::char::methods::<impl char>::to_uppercase", case_iter);
    r("core::char::methods::<impl char>::to_ascii_lowercase", ascii_lower);
    r("core::char::methods::<impl char>::to_ascii_uppercase", ascii_upper);
    r("core::num::<impl u8>::to_ascii_lowercase", ascii_lower);
    r("core::num::<impl u8>::to_ascii_uppercase", ascii_upper);
    r("core::char::methods::<impl char>::len_utf8", len_utf8);
}

// shared pointers and cells
fn rc_new(_: &mut Engine, st: &mut State, c: &Call) -> NR {
    if let Val::Str(_) = st.res(&c.args[0])? {
        return ok(c.args[0].clone());
    }
    st.heap.push(c.args[0].clone());
    ok(Val::ptr(Base::Heap(st.heap.len() as u32 - 1), vec![], Meta::None))
}
/// From<Vec<T>>, From<Box<T>>, From<T>
fn rc_from(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let v = match st.res(&c.args[0])? {
        Val::Box(b, None) => (**b).clone(),
        Val::Box(..) => return unsup("Rc from a boxed trait object"),
        v => v.clone(),
    };
    if let Val::Str(_) = v {
        return ok(v);
    }
    let sl = match c.inst.args.types().next() {
        _ if c.name.contains("Vec<") => match st.res(&v)? {
            Val::Seq(s) => Meta::Slice(0, s.items.len() as u32),
            _ => return unsup("Rc from a vector"),
        },
        _ => Meta::None,
    };
    let _ = e;
    st.heap.push(v);
    ok(Val::ptr(Base::Heap(st.heap.len() as u32 - 1), vec![], sl))
}
/// the pointer held in a smart pointer that `c.args[0]` refers to
fn held(e: &Engine, st: &State, v: &Val) -> R<Val> {
    match st.res(v)? {
        Val::Ptr(p) => match st.res(st.get(&e.lower.consts, p.base, &p.path)?)? {
            Val::Ptr(q) => Ok(Val::Ptr(q.clone())),
            Val::Str(s) => Ok(Val::Str(s.clone())),
            x => unsup(format!("smart pointer holding {}", kind(x))),
        },
        Val::Str(s) => Ok(Val::Str(s.clone())),
        x => unsup(format!("smart pointer expected, got {}", kind(x))),
    }
}
fn rc_deref(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    ok(held(e, st, &c.args[0])?)
}
fn rc_ptr_eq(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    match (held(e, st, &c.args[0])?, held(e, st, &c.args[1])?) {
        (Val::Ptr(p), Val::Ptr(q)) => ok(Val::bool(p.base == q.base && p.path == q.path)),
        _ => unsup("Rc::ptr_eq"),
    }
}
fn rc_value(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    ok(e.rd(st, &c.args[0])?)
}
fn rc_make_mut(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let p = match st.res(&c.args[0])? {
        Val::Ptr(p) => p.clone(),
        _ => return unsup("make_mut"),
    };
    let h = held(e, st, &c.args[0])?;
    let v = e.rd(st, &h)?;
    st.heap.push(v);
    let n = Val::ptr(Base::Heap(st.heap.len() as u32 - 1), vec![], Meta::None);
    e.wr(st, &p, n.clone())?;
    ok(n)
}
fn rc_no(_: &mut Engine, _: &mut State, c: &Call) -> NR {
    unsup(format!("reference counts: {}", c.name))
}
fn cell_field(e: &mut Engine, st: &mut State, c: &Call, field: &str) -> R<Val> {
    // &RefCell<T> -> &T ; the fields by name
    let p = match st.res(&c.args[0])? {
        Val::Ptr(p) => match st.get(&e.lower.consts, p.base, &p.path)? {
            Val::Ptr(q) => q.clone(),
            _ => p.clone(),
        },
        _ => return unsup("cell"),
    };
    let tcx = e.lower.tcx;
    let imp = tcx.impl_of_assoc(c.inst.def_id());
    let Some(imp) = imp else { return unsup("cell impl") };
    let t = tcx.type_of(imp).skip_binder();
    let Some(d) = t.ty_adt_def() else { return unsup("cell type") };
    let i = d.non_enum_variant().fields.iter().position(|f| f.name.as_str() == field);
    let Some(i) = i else { return unsup("cell field") };
    let mut path = p.path.clone();
    path.push(Proj::Field(i as u32));
    path.push(Proj::Field(0)); // UnsafeCell
    Ok(Val::ptr(p.base, path, Meta::None))
}
fn refcell_borrow(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let v = cell_field(e, st, c, "value")?;
    ok(if canon(c.name).contains("::try_") { Val::ok(v) } else { v })
}
fn mutex_lock(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let v = cell_field(e, st, c, "data")?;
    ok(Val::ok(v))
}
/// methods of LazyLock, LazyCell, OnceLock, OnceCell and lazy_static's Lazy are shims over the Result or Option they hold
fn cell_shim(e: &mut Engine, _: &mut State, c: &Call) -> NR {
    let k = canon(c.name);
    let m = k.rsplit("::").next().unwrap();
    let lazy = k.contains("LazyLock") || k.contains("LazyCell");
    let n = match (lazy, m) {
        (true, _) => "lazy_force",
        (_, "get") if k.contains("lazy_static") => "once_get_or_init",
        _ if k.contains("thread_local") => "tl_get_or_init",
        (_, "get_or_init") => "once_get_or_init",
        (_, "get") => "once_get",
        (_, "get_mut") => "once_get_mut",
        (_, "set") => "once_set",
        (_, "take") => "once_take",
        _ => return unsup(format!("cell method {}", m)),
    };
    let t: Vec<rustc_middle::ty::GenericArg<'static>> = c.inst.args.types().map(|t| t.into()).collect();
    let s = e.shim(n, &t)?;
    Ok(Nat::Call(s, c.args.to_vec()))
}
fn lazy_new(_: &mut Engine, _: &mut State, c: &Call) -> NR {
    ok(Val::err(c.args[0].clone()))
}
fn once_new(_: &mut Engine, _: &mut State, _: &Call) -> NR {
    ok(Val::none())
}
fn once_from(_: &mut Engine, _: &mut State, c: &Call) -> NR {
    ok(Val::some(c.args[0].clone()))
}
fn unsafe_cell_get(_: &mut Engine, st: &mut State, c: &Call) -> NR {
    let p = match st.res(&c.args[0])? {
        Val::Ptr(p) => p.clone(),
        _ => return unsup("cell"),
    };
    let mut path = p.path.clone();
    path.push(Proj::Field(0));
    ok(Val::ptr(p.base, path, p.meta))
}
fn atomic_store(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    write_via(e, st, c)
}
/// atomic_xadd and friends: the old value is returned; one thread only
fn atomic_rmw(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let old = read_via(e, st, c)?;
    let Nat::Val(old) = old else { return unsup("atomic") };
    let Val::Int(a) = st.res(&old)?.clone() else { return unsup("atomic value") };
    let b = e.i(st, &c.args[1])?;
    let k = canon(c.name);
    let new = match k.rsplit("::").next().unwrap() {
        "atomic_xchg" => b,
        "atomic_xadd" => term::bin(term::Op::Add, a, b),
        "atomic_xsub" => term::bin(term::Op::Sub, a, b),
        "atomic_and" => term::bin(term::Op::And, a, b),
        "atomic_or" => term::bin(term::Op::Or, a, b),
        "atomic_xor" => term::bin(term::Op::Xor, a, b),
        "atomic_umax" => term::ite(term::ult(a, b), b, a),
        "atomic_umin" => term::ite(term::ult(a, b), a, b),
        m => return unsup(m),
    };
    let p = match st.res(&c.args[0])? {
        Val::Ptr(p) => p.clone(),
        _ => return unsup("atomic pointer"),
    };
    e.wr(st, &p, Val::Int(new))?;
    ok(old)
}
fn is_null(_: &mut Engine, st: &mut State, c: &Call) -> NR {
    match st.res(&c.args[0])? {
        Val::Ptr(p) if p.base == Base::Dangling => unsup("is_null"),
        Val::Ptr(_) => ok(Val::bool(false)),
        _ => unsup("is_null"),
    }
}
fn statics_fresh(_: &mut Engine, st: &mut State, _: &Call) -> NR {
    let o = std::mem::take(&mut st.over);
    st.saved.push(o);
    ok(Val::unit())
}
fn statics_back(_: &mut Engine, st: &mut State, _: &Call) -> NR {
    match st.saved.pop() {
        Some(o) => st.over = o,
        None => return unsup("statics"),
    }
    ok(Val::unit())
}
fn raw_leak(_: &mut Engine, st: &mut State, c: &Call) -> NR {
    st.heap.push(c.args[0].clone());
    ok(Val::ptr(Base::Heap(st.heap.len() as u32 - 1), vec![], Meta::None))
}
fn ctpop(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let t = e.i(st, &c.args[0])?;
    let n = e.concretize(st, t)?;
    ok(Val::Int(term::c(32, n.count_ones() as u128)))
}
fn array_from_vec(e: &mut Engine, st: &mut State, c: &Call) -> NR {
    let s = e.own_seq(st, &c.args[0])?;
    let xs = e.plain(st, &s)?;
    let n = c.inst.args.consts().next().and_then(|n| n.try_to_target_usize(e.lower.tcx));
    match n {
        Some(n) if n as usize == xs.len() => ok(Val::ok(Val::seq(xs))),
        Some(_) => ok(Val::err(Val::seq(xs))),
        None => unsup("array length"),
    }
}
fn cells(name: &str, c: &str) -> Option<NFn> {
    let (ty, tr, m) = crate::nat_str::split_name(c)?;
    let tr = tr.rsplit("::").next().unwrap_or("");
    let rc = (ty.starts_with("alloc::") && (ty.ends_with("::Rc") || ty.ends_with("::Arc"))) && !ty.contains(' ');
    if rc {
        return match (tr, m) {
            ("", "new") => Some(rc_new),
            ("From", "from") => Some(rc_from),
            ("Clone", "clone") | ("Deref", "deref") | ("AsRef", "as_ref") | ("Borrow", "borrow") => Some(rc_deref),
            ("", "ptr_eq") => Some(rc_ptr_eq),
            ("", "unwrap_or_clone") => Some(rc_value),
            ("", "make_mut") => Some(rc_make_mut),
            ("", "strong_count" | "weak_count" | "get_mut" | "try_unwrap" | "into_inner" | "downgrade" | "new_cyclic" | "from_raw" | "into_raw" | "is_unique") => Some(rc_no),
            _ => None,
        };
    }
    let last = ty.rsplit("::").next().unwrap_or("");
    let cell = ty.starts_with("core::cell");
    match (last, tr, m) {
        ("RefCell", "", "borrow" | "borrow_mut" | "try_borrow" | "try_borrow_mut") if cell => Some(refcell_borrow),
        ("Ref" | "RefMut", "Deref" | "DerefMut", "deref" | "deref_mut") if cell => Some(rc_deref),
        ("Mutex", "", "lock" | "try_lock") | ("RwLock", "", "read" | "write" | "try_read" | "try_write") if ty.starts_with("std::sync") => Some(mutex_lock),
        ("MutexGuard" | "RwLockReadGuard" | "RwLockWriteGuard", "Deref" | "DerefMut", "deref" | "deref_mut") if ty.starts_with("std::sync") => Some(rc_deref),
        ("LazyLock" | "LazyCell", "Deref", "deref") | ("LazyLock" | "LazyCell", "", "force") => Some(cell_shim),
        ("LazyLock" | "LazyCell", "", "new") => Some(lazy_new),
        ("OnceLock" | "OnceCell", "", "new") | ("OnceLock" | "OnceCell", "Default", "default") => Some(once_new),
        ("OnceLock" | "OnceCell", "From", "from") => Some(once_from),
        ("OnceLock" | "OnceCell", "", "get_or_init" | "get" | "set" | "take" | "get_mut") => Some(cell_shim),
        ("OnceLock" | "OnceCell", "", "into_inner") => Some(id_fn),
        ("OnceLock" | "OnceCell", "", "try_insert" | "get_or_try_init") => Some(rc_no),
        _ => {
            let _ = name;
            None
        }
    }
}

pub fn pattern(name: &str, c: &str) -> Option<NFn> {
    if let Some(f) = cells(name, c) {
        return Some(f);
    }
    if name.ends_with("core::ops::drop::Drop>::drop") {
        return Some(unit_fn);
    }
    if c.starts_with("core::panicking::panic_const::") {
        return Some(panic_fn);
    }
    if c.starts_with("core::fmt::num::") && c.ends_with("::fmt") {
        return Some(int_fmt);
    }
    // default serde error constructors (trait-provided methods)
    for k in ["invalid_type", "invalid_value", "invalid_length", "unknown_variant", "unknown_field", "missing_field", "duplicate_field"] {
        if c == format!("serde::de::Error::{}", k) {
            return None;
        }
    }
    let _ = name;
    None
}
