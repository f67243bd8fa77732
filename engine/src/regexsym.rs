//! Regular-expression matching over symbolic strings, by running the regex's DFA.
use crate::term::{self, T};
use crate::val::S;
use regex_automata::dfa::{dense, Automaton};
use regex_automata::nfa::thompson::pikevm::PikeVM;
use regex_automata::util::{primitives::StateID, start};
use regex_automata::Input;
use std::collections::BTreeMap;

pub struct Dfa {
    pub dfa: Option<dense::DFA<Vec<u32>>>,
    pub vm: PikeVM,
    /// ASCII ranges grouped by byte class of the NFA
    groups: Vec<Vec<(u8, u8)>>,
    /// byte -> representative class
    classes: Vec<(u8, u8)>, // contiguous ASCII ranges with identical behaviour
}

impl Dfa {
    pub fn new(pat: &str) -> Result<Dfa, String> {
        let vm = PikeVM::new(pat).map_err(|e| e.to_string())?;
        let dfa = dense::Builder::new().build(pat).ok();
        fn split(get: &dyn Fn(u8) -> u8) -> Vec<(u8, u8)> {
            let mut classes = vec![];
            let mut lo = 0u8;
            for b in 1..=128u32 {
                if b == 128 || get(b as u8) != get(lo) {
                    classes.push((lo, (b - 1) as u8));
                    lo = b as u8;
                }
            }
            classes
        }
        let classes = match &dfa {
            Some(d) => split(&|b| d.byte_classes().get(b)),
            None => vec![],
        };
        let nb = vm.get_nfa().byte_classes().clone();
        let mut by: BTreeMap<u8, Vec<(u8, u8)>> = BTreeMap::new();
        for r in split(&|b| nb.get(b)) {
            by.entry(nb.get(r.0)).or_default().push(r);
        }
        Ok(Dfa { dfa, vm, groups: by.into_values().collect(), classes })
    }
    /// a concrete string on which the regex behaves as on `s`, one decision per character
    pub fn represent(&self, chars: &[T], decide: &mut dyn FnMut(T) -> Result<bool, crate::exec::Ex>) -> Result<String, crate::exec::Ex> {
        let mut out = String::new();
        'c: for ch in chars {
            if let Some(x) = term::as_const(*ch) {
                out.push(char::from_u32(x as u32).unwrap_or('?'));
                continue;
            }
            let (lo, hi) = term::bounds(*ch, 12);
            if hi >= 128 {
                return crate::exec::unsup("regex over non-ASCII symbolic character");
            }
            let live: Vec<&Vec<(u8, u8)>> = self.groups.iter().filter(|g| g.iter().any(|(a, b)| *b as u128 >= lo && *a as u128 <= hi)).collect();
            for (k, g) in live.iter().enumerate() {
                let mut c = term::FALSE;
                for (a, b) in g.iter() {
                    c = term::or(c, in_range(*ch, *a as u32, *b as u32));
                }
                if k + 1 == live.len() || decide(c)? {
                    out.push(g[0].0 as char);
                    continue 'c;
                }
            }
        }
        Ok(out)
    }
    /// all successive matches (byte offsets of every group)
    pub fn captures(&self, hay: &str, from: usize, lim: usize) -> Vec<Vec<Option<(usize, usize)>>> {
        let mut cache = self.vm.create_cache();
        let mut out = vec![];
        for c in self.vm.captures_iter(&mut cache, Input::new(hay).span(from..hay.len())) {
            if out.len() >= lim {
                break;
            }
            out.push((0..c.group_len()).map(|i| c.get_group(i).map(|m| (m.start, m.end))).collect());
        }
        out
    }
    pub fn is_match(&self, s: &S) -> Result<T, String> {
        match s {
            S::Ite(c, a, b) => Ok(term::ite(*c, self.is_match(a)?, self.is_match(b)?)),
            S::Const(x) => {
                Ok(term::b(self.vm.is_match(&mut self.vm.create_cache(), Input::new(&**x))))
            }
            S::Chars(v) => {
                let dfa = self.dfa.as_ref().ok_or("no dfa for this regex")?;
                let st = dfa
                    .start_state(&start::Config::new().anchored(regex_automata::Anchored::No))
                    .map_err(|e| e.to_string())?;
                let mut cur: BTreeMap<StateID, T> = BTreeMap::new();
                cur.insert(st, term::TRUE);
                let mut hit = term::FALSE;
                for ch in v.iter() {
                    let (lo, hi) = term::bounds(*ch, 12);
                    if hi >= 128 {
                        return Err("regex over non-ASCII symbolic character".into());
                    }
                    let mut next: BTreeMap<StateID, T> = BTreeMap::new();
                    for (sid, g) in &cur {
                        let mut per: BTreeMap<StateID, T> = BTreeMap::new();
                        for (a, b) in &self.classes {
                            if (*b as u128) < lo || (*a as u128) > hi {
                                continue;
                            }
                            let t = dfa.next_state(*sid, *a);
                            let c = in_range(*ch, *a as u32, *b as u32);
                            let e = per.entry(t).or_insert(term::FALSE);
                            *e = term::or(*e, c);
                        }
                        for (t, c) in per {
                            let gc = term::and(*g, c);
                            if dfa.is_match_state(t) {
                                hit = term::or(hit, gc);
                            } else if dfa.is_quit_state(t) {
                                return Err("regex quit state".into());
                            } else if !dfa.is_dead_state(t) {
                                let e = next.entry(t).or_insert(term::FALSE);
                                *e = term::or(*e, gc);
                            }
                        }
                    }
                    cur = next;
                }
                for (sid, g) in cur {
                    let t = dfa.next_eoi_state(sid);
                    if dfa.is_match_state(t) {
                        hit = term::or(hit, g);
                    }
                }
                Ok(hit)
            }
        }
    }
}

pub fn in_range(ch: T, a: u32, b: u32) -> T {
    let w = term::width(ch);
    if a == b {
        return term::eq(ch, term::c(w, a as u128));
    }
    let lo = term::not(term::ult(ch, term::c(w, a as u128)));
    let hi = term::not(term::ult(term::c(w, b as u128), ch));
    term::and(lo, hi)
}
