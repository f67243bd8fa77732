#![cfg_attr(mirsym, feature(formatting_options))]
//! Symbolic-input runtime shared by the solver run and the native replay.
//!
//! Under `--cfg mirsym` the functions marked "engine" are intercepted by the symbolic
//! executor; natively they read a variable assignment and check concretely.
#![allow(clippy::all)]

#[cfg(mirsym)]
mod imp {
    pub fn any_bool(_label: &str) -> bool {
        loop {}
    }
    /// 0..n
    pub fn any_choice(_label: &str, _n: usize) -> usize {
        loop {}
    }
    /// ASCII string; `ranges` is a list of character pairs "azAZ__"
    pub fn any_string(_label: &str, _min: usize, _max: usize, _ranges: &str) -> String {
        loop {}
    }
    /// one of the given values
    pub fn pick<T>(_label: &str, _xs: Vec<T>) -> T {
        loop {}
    }
    /// `if c { a } else { b }` without forking
    pub fn select<T>(_c: bool, _a: T, _b: T) -> T {
        loop {}
    }
    pub fn assume(_c: bool) {}
    pub fn check(_c: bool, _id: &'static str) {}
    pub fn reach(_label: &'static str) {}
    pub fn hash_order(_mode: u32) {}
    pub fn show(_label: &str, _v: &str) {}
    pub fn show_json<T>(_label: &str, _v: &T) {}
    pub fn catch<T, F: FnOnce() -> T>(f: F) -> Result<T, ()> {
        Ok(f())
    }
    pub fn is_symbolic() -> bool {
        true
    }
    pub fn statics_fresh() {}
    pub fn statics_back() {}
    /// `f` in a process that has not run anything yet
    pub fn alone<T, F: FnOnce() -> T>(f: F, _ser: fn(&T) -> String, _de: fn(&str) -> T) -> T {
        statics_fresh();
        let r = f();
        statics_back();
        r
    }
}

#[cfg(not(mirsym))]
mod imp {
    use std::cell::RefCell;
    use std::collections::HashMap;
    use std::panic::{catch_unwind, AssertUnwindSafe};

    #[derive(Default)]
    pub struct Run {
        pub asg: HashMap<String, u128>,
        pub failed: Vec<String>,
        pub reached: Vec<String>,
        pub verbose: bool,
        pub vacuous: bool,
        pub shown: Vec<String>,
    }
    thread_local! {
        pub static RUN: RefCell<Run> = RefCell::new(Run::default());
    }
    pub struct Vacuous;

    fn get(label: &str) -> u128 {
        RUN.with(|r| r.borrow().asg.get(label).copied().unwrap_or(0))
    }
    pub fn any_bool(label: &str) -> bool {
        get(label) != 0
    }
    pub fn any_choice(label: &str, n: usize) -> usize {
        let v = get(label) as usize;
        if v >= n {
            assume(false)
        }
        v
    }
    pub fn any_string(label: &str, min: usize, max: usize, ranges: &str) -> String {
        let n = min + any_choice(&format!("{}.len", label), max - min + 1);
        let rs: Vec<char> = ranges.chars().collect();
        (0..n)
            .map(|i| {
                let mut c = get(&format!("{}.{}", label, i)) as u8 as char;
                if !rs.chunks(2).any(|p| p[0] <= c && c <= p[1]) {
                    c = rs[0];
                }
                c
            })
            .collect()
    }
    pub fn pick<T>(label: &str, xs: Vec<T>) -> T {
        let n = any_choice(label, xs.len());
        xs.into_iter().nth(n).unwrap()
    }
    pub fn select<T>(c: bool, a: T, b: T) -> T {
        if c {
            a
        } else {
            b
        }
    }
    pub fn assume(c: bool) {
        if !c {
            RUN.with(|r| r.borrow_mut().vacuous = true);
            std::panic::resume_unwind(Box::new(Vacuous));
        }
    }
    pub fn check(c: bool, id: &'static str) {
        if !c {
            RUN.with(|r| r.borrow_mut().failed.push(id.to_string()));
        }
    }
    pub fn reach(label: &'static str) {
        RUN.with(|r| r.borrow_mut().reached.push(label.to_string()));
    }
    pub fn hash_order(_mode: u32) {}
    pub fn show(label: &str, v: &str) {
        if RUN.with(|r| r.borrow().verbose) {
            println!("  {}: {}", label, v);
        }
    }
    pub fn show_json<T: std::fmt::Display>(label: &str, v: &T) {
        RUN.with(|r| r.borrow_mut().shown.push(format!("{}: {}", label, v)));
    }
    pub fn catch<T, F: FnOnce() -> T>(f: F) -> Result<T, ()> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => Ok(v),
            Err(e) => {
                if e.is::<Vacuous>() {
                    std::panic::resume_unwind(e)
                }
                Err(())
            }
        }
    }
    pub fn is_symbolic() -> bool {
        false
    }
    /// `f` in a process that has not run anything yet, if this one has not: `alone` has to come first
    pub fn alone<T, F: FnOnce() -> T>(f: F, ser: fn(&T) -> String, de: fn(&str) -> T) -> T {
        extern "C" {
            fn fork() -> i32;
            fn pipe(fds: *mut i32) -> i32;
            fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
            fn _exit(code: i32) -> !;
        }
        use std::io::{Read, Write};
        use std::os::fd::FromRawFd;
        let mut fds = [0i32; 2];
        unsafe {
            assert_eq!(pipe(fds.as_mut_ptr()), 0);
            let mut r = std::fs::File::from_raw_fd(fds[0]);
            let mut w = std::fs::File::from_raw_fd(fds[1]);
            let pid = fork();
            assert!(pid >= 0);
            if pid == 0 {
                if let Ok(v) = catch_unwind(AssertUnwindSafe(f)) {
                    let _ = w.write_all(ser(&v).as_bytes());
                }
                _exit(0);
            }
            drop(w);
            let mut s = String::new();
            r.read_to_string(&mut s).unwrap();
            waitpid(pid, std::ptr::null_mut(), 0);
            de(&s)
        }
    }

    /// `f` in a child process; false if the child crashed
    pub fn forked<F: FnOnce()>(f: F) -> bool {
        extern "C" {
            fn fork() -> i32;
            fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
            fn _exit(code: i32) -> !;
        }
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe {
            let pid = fork();
            assert!(pid >= 0);
            if pid == 0 {
                let r = catch_unwind(AssertUnwindSafe(f));
                let _ = std::io::stdout().flush();
                _exit(r.is_err() as i32);
            }
            let mut st = 0;
            waitpid(pid, &mut st, 0);
            st == 0
        }
    }

    /// Outcome of one native run
    #[derive(Debug)]
    pub struct Outcome {
        pub failed: Vec<String>,
        pub reached: Vec<String>,
        pub vacuous: bool,
        pub panicked: bool,
        pub shown: Vec<String>,
    }
    pub fn run_native(asg: HashMap<String, u128>, verbose: bool, f: fn()) -> Outcome {
        RUN.with(|r| *r.borrow_mut() = Run { asg, verbose, ..Default::default() });
        let r = catch_unwind(f);
        let panicked = match &r {
            Ok(()) => false,
            Err(e) => !e.is::<Vacuous>(),
        };
        RUN.with(|r| {
            let r = std::mem::take(&mut *r.borrow_mut());
            Outcome { failed: r.failed, reached: r.reached, vacuous: r.vacuous, panicked, shown: r.shown }
        })
    }
}
pub use imp::*;

/// Bodies executed by the symbolic engine in place of standard-library loops that call back
/// into user closures. Generic parameters follow the order of the replaced function.
#[cfg(mirsym)]
#[allow(dead_code, unused_variables)]
pub mod shims {
    use std::borrow::Borrow;
    use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
    use std::hash::{BuildHasher, Hash};

    // engine primitives
    pub fn raw_hm_new<K, V, S>() -> HashMap<K, V, S> {
        loop {}
    }
    pub fn raw_hs_new<K, S>() -> HashSet<K, S> {
        loop {}
    }
    pub fn raw_hm_insert<K, V, S>(m: &mut HashMap<K, V, S>, k: K, v: V) -> Option<V> {
        loop {}
    }
    pub fn raw_hs_insert<K, S>(m: &mut HashSet<K, S>, k: K) -> bool {
        loop {}
    }
    pub fn raw_sort_by_keys<T, K>(v: &mut [T], keys: Vec<K>) {
        loop {}
    }
    pub fn raw_seq_take<T>(v: &mut Vec<T>) -> Vec<T> {
        loop {}
    }
    pub fn raw_str_push(s: &mut String, o: &str) {
        loop {}
    }
    pub fn raw_swap<T>(v: &mut [T], i: usize, j: usize) {
        loop {}
    }
    pub fn raw_into_boxed_slice<T>(v: Vec<T>) -> Box<[T]> {
        loop {}
    }

    pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
        let mut v = Vec::new();
        for x in it {
            v.push(x);
        }
        v
    }
    pub fn box_slice_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Box<[T]> {
        let mut v = Vec::new();
        for x in it {
            v.push(x);
        }
        raw_into_boxed_slice(v)
    }
    pub fn vec_extend<T, A, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
        for x in it {
            v.push(x);
        }
    }
    pub fn vec_extend_ref<'a, T: Copy + 'a, A, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T>, it: I) {
        for x in it {
            v.push(*x);
        }
    }
    pub fn hm_from_iter<K, V, S, I: IntoIterator<Item = (K, V)>>(it: I) -> HashMap<K, V, S> {
        let mut m = raw_hm_new();
        for (k, v) in it {
            raw_hm_insert(&mut m, k, v);
        }
        m
    }
    pub fn hm_extend_one<K, V, S, A>(m: &mut HashMap<K, V, S>, kv: (K, V)) {
        raw_hm_insert(m, kv.0, kv.1);
    }
    pub fn hm_extend<K, V, S, A, I: IntoIterator<Item = (K, V)>>(m: &mut HashMap<K, V, S>, it: I) {
        for (k, v) in it {
            raw_hm_insert(m, k, v);
        }
    }
    pub fn hs_from_iter<K, S, I: IntoIterator<Item = K>>(it: I) -> HashSet<K, S> {
        let mut m = raw_hs_new();
        for k in it {
            raw_hs_insert(&mut m, k);
        }
        m
    }
    pub fn hs_extend<K, S, A, I: IntoIterator<Item = K>>(m: &mut HashSet<K, S>, it: I) {
        for k in it {
            raw_hs_insert(m, k);
        }
    }
    pub fn bm_from_iter<K: Ord, V, I: IntoIterator<Item = (K, V)>>(it: I) -> BTreeMap<K, V> {
        let mut m = BTreeMap::new();
        for (k, v) in it {
            m.insert(k, v);
        }
        m
    }
    pub fn bm_extend<K: Ord, V, A, I: IntoIterator<Item = (K, V)>>(m: &mut BTreeMap<K, V>, it: I) {
        for (k, v) in it {
            m.insert(k, v);
        }
    }
    pub fn bs_from_iter<K: Ord, I: IntoIterator<Item = K>>(it: I) -> BTreeSet<K> {
        let mut m = BTreeSet::new();
        for k in it {
            m.insert(k);
        }
        m
    }
    pub fn bs_extend<K: Ord, A, I: IntoIterator<Item = K>>(m: &mut BTreeSet<K>, it: I) {
        for k in it {
            m.insert(k);
        }
    }
    pub fn str_from_chars<I: IntoIterator<Item = char>>(it: I) -> String {
        let mut s = String::new();
        for c in it {
            s.push(c);
        }
        s
    }
    pub fn str_from_char_refs<'a, I: IntoIterator<Item = &'a char>>(it: I) -> String {
        let mut s = String::new();
        for c in it {
            s.push(*c);
        }
        s
    }
    pub fn str_from_strs<'a, I: IntoIterator<Item = &'a str>>(it: I) -> String {
        let mut s = String::new();
        for c in it {
            raw_str_push(&mut s, c);
        }
        s
    }
    pub fn str_from_strings<I: IntoIterator<Item = String>>(it: I) -> String {
        let mut s = String::new();
        for c in it {
            raw_str_push(&mut s, &c);
        }
        s
    }
    pub fn str_extend_chars<I: IntoIterator<Item = char>>(s: &mut String, it: I) {
        for c in it {
            s.push(c);
        }
    }
    pub fn str_extend_strs<'a, I: IntoIterator<Item = &'a str>>(s: &mut String, it: I) {
        for c in it {
            raw_str_push(s, c);
        }
    }
    pub fn str_extend_strings<I: IntoIterator<Item = String>>(s: &mut String, it: I) {
        for c in it {
            raw_str_push(s, &c);
        }
    }
    pub fn raw_leak<T>(v: T) -> &'static T {
        loop {}
    }
    pub fn lazy_force<T: 'static, F: FnOnce() -> T>(p: *mut Result<T, F>) -> &'static T {
        unsafe {
            if let Err(f) = &*p {
                let f = std::ptr::read(f);
                let v = f();
                std::ptr::write(p, Ok(v));
            }
            match &*p {
                Ok(v) => v,
                Err(_) => loop {},
            }
        }
    }
    pub fn once_get_or_init<T: 'static, F: FnOnce() -> T>(p: *mut Option<T>, f: F) -> &'static T {
        unsafe {
            if (*p).is_none() {
                let v = f();
                std::ptr::write(p, Some(v));
            }
            match &*p {
                Some(v) => v,
                None => loop {},
            }
        }
    }
    pub fn tl_get_or_init<T, D, F: FnOnce() -> T>(p: *mut Option<T>, _i: Option<&mut Option<T>>, f: F) -> *const T {
        unsafe {
            if (*p).is_none() {
                let v = f();
                std::ptr::write(p, Some(v));
            }
            match &*p {
                Some(v) => v,
                None => loop {},
            }
        }
    }
    pub fn once_get<T: 'static>(p: *mut Option<T>) -> Option<&'static T> {
        unsafe { (*p).as_ref() }
    }
    pub fn once_get_mut<T: 'static>(p: *mut Option<T>) -> Option<&'static mut T> {
        unsafe { (*p).as_mut() }
    }
    pub fn once_set<T: 'static>(p: *mut Option<T>, v: T) -> Result<(), T> {
        unsafe {
            if (*p).is_some() {
                return Err(v);
            }
            std::ptr::write(p, Some(v));
        }
        Ok(())
    }
    pub fn once_take<T: 'static>(p: *mut Option<T>) -> Option<T> {
        unsafe { (*p).take() }
    }
    /// the engine can compare keys of this type itself
    pub fn raw_plain_order<T>() -> bool {
        loop {}
    }
    pub fn sort_by_key<T, K: Ord, F: FnMut(&T) -> K>(v: &mut [T], mut f: F) {
        if !raw_plain_order::<K>() {
            sort_by(v, |a, b| f(a).cmp(&f(b)));
            return;
        }
        let mut keys = Vec::new();
        for x in v.iter() {
            keys.push(f(x));
        }
        raw_sort_by_keys(v, keys);
    }
    pub fn sort<T: Ord>(v: &mut [T]) {
        if !raw_plain_order::<T>() {
            sort_by(v, |a, b| a.cmp(b));
            return;
        }
        let mut keys: Vec<&T> = Vec::new();
        let v2: &[T] = unsafe { &*(v as *const [T]) };
        for x in v2.iter() {
            keys.push(x);
        }
        raw_sort_by_keys(v, keys);
    }
    pub fn sort_by<T, F: FnMut(&T, &T) -> std::cmp::Ordering>(v: &mut [T], mut f: F) {
        let n = v.len();
        let mut i = 1;
        while i < n {
            let mut j = i;
            while j > 0 && f(&v[j - 1], &v[j]) == std::cmp::Ordering::Greater {
                raw_swap(v, j - 1, j);
                j -= 1;
            }
            i += 1;
        }
    }
    pub fn vec_retain<T, A, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
        let old = raw_seq_take(v);
        for x in old {
            if f(&x) {
                v.push(x);
            }
        }
    }
    pub fn vec_retain_mut<T, A, F: FnMut(&mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
        let old = raw_seq_take(v);
        for mut x in old {
            if f(&mut x) {
                v.push(x);
            }
        }
    }
    pub fn vec_dedup<T: PartialEq, A>(v: &mut Vec<T>) {
        let old = raw_seq_take(v);
        for x in old {
            let keep = match v.last() {
                Some(l) => *l != x,
                None => true,
            };
            if keep {
                v.push(x);
            }
        }
    }
    pub fn vec_dedup_by_key<T, A, F: FnMut(&mut T) -> K, K: PartialEq>(v: &mut Vec<T>, mut f: F) {
        let old = raw_seq_take(v);
        for mut x in old {
            let keep = match v.last_mut() {
                Some(l) => f(l) != f(&mut x),
                None => true,
            };
            if keep {
                v.push(x);
            }
        }
    }
    pub fn vec_dedup_by<T, A, F: FnMut(&mut T, &mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
        let old = raw_seq_take(v);
        for mut x in old {
            let keep = match v.last_mut() {
                Some(l) => !f(&mut x, l),
                None => true,
            };
            if keep {
                v.push(x);
            }
        }
    }
    pub fn vec_resize<T: Clone, A>(v: &mut Vec<T>, n: usize, x: T) {
        v.truncate(n);
        while v.len() < n {
            v.push(x.clone());
        }
    }
    pub fn vec_extend_with<T: Clone, A>(v: &mut Vec<T>, n: usize, x: T) {
        let mut i = 0;
        while i < n {
            v.push(x.clone());
            i += 1;
        }
    }
    pub fn vec_resize_with<T, A, F: FnMut() -> T>(v: &mut Vec<T>, n: usize, mut f: F) {
        v.truncate(n);
        while v.len() < n {
            v.push(f());
        }
    }
    pub fn vec_splice<T, A, R: std::ops::RangeBounds<usize>, I: IntoIterator<Item = T>>(v: &mut Vec<T>, r: R, with: I) -> std::vec::IntoIter<T> {
        let a = match r.start_bound() {
            std::ops::Bound::Included(x) => *x,
            std::ops::Bound::Excluded(x) => *x + 1,
            std::ops::Bound::Unbounded => 0,
        };
        let b = match r.end_bound() {
            std::ops::Bound::Included(x) => *x + 1,
            std::ops::Bound::Excluded(x) => *x,
            std::ops::Bound::Unbounded => v.len(),
        };
        let mut rest = v.split_off(a);
        let tail = rest.split_off(b - a);
        for x in with {
            v.push(x);
        }
        for x in tail {
            v.push(x);
        }
        rest.into_iter()
    }
    pub fn vec_extend_from_within<T: Clone, A, R: std::slice::SliceIndex<[T], Output = [T]>>(v: &mut Vec<T>, r: R) {
        let w: Vec<T> = v[r].to_vec();
        for x in w {
            v.push(x);
        }
    }
    pub fn slice_binary_search_by<T, F: FnMut(&T) -> std::cmp::Ordering>(v: &[T], mut f: F) -> Result<usize, usize> {
        let mut size = v.len();
        if size == 0 {
            return Err(0);
        }
        let mut base = 0;
        while size > 1 {
            let half = size / 2;
            let mid = base + half;
            if f(&v[mid]) != std::cmp::Ordering::Greater {
                base = mid;
            }
            size -= half;
        }
        match f(&v[base]) {
            std::cmp::Ordering::Equal => Ok(base),
            std::cmp::Ordering::Less => Err(base + 1),
            std::cmp::Ordering::Greater => Err(base),
        }
    }
    pub fn slice_partition_point<T, P: FnMut(&T) -> bool>(v: &[T], mut f: P) -> usize {
        let mut i = 0;
        for x in v {
            if !f(x) {
                return i;
            }
            i += 1;
        }
        i
    }
    pub fn slice_chunk_by<T, F: FnMut(&T, &T) -> bool>(v: &[T], mut f: F) -> std::vec::IntoIter<&[T]> {
        let mut out = Vec::new();
        let n = v.len();
        let mut a = 0;
        let mut i = 1;
        while i <= n {
            if i == n || !f(&v[i - 1], &v[i]) {
                out.push(&v[a..i]);
                a = i;
            }
            i += 1;
        }
        out.into_iter()
    }
    pub fn slice_split<T, F: FnMut(&T) -> bool>(v: &[T], mut f: F) -> std::vec::IntoIter<&[T]> {
        let mut out = Vec::new();
        let n = v.len();
        let mut a = 0;
        let mut i = 0;
        while i < n {
            if f(&v[i]) {
                out.push(&v[a..i]);
                a = i + 1;
            }
            i += 1;
        }
        out.push(&v[a..n]);
        out.into_iter()
    }
    pub fn array_from_fn<T, const N: usize, F: FnMut(usize) -> T>(mut f: F) -> Vec<T> {
        let mut out = Vec::new();
        let mut i = 0;
        while i < N {
            out.push(f(i));
            i += 1;
        }
        out
    }
    pub fn hm_take<K, V, S>(m: &mut HashMap<K, V, S>) -> HashMap<K, V, S> {
        std::mem::replace(m, raw_hm_new())
    }
    pub fn hm_retain<K, V, S, A, F: FnMut(&K, &mut V) -> bool>(m: &mut HashMap<K, V, S>, mut f: F) {
        let old = hm_take(m);
        for (k, mut v) in old {
            if f(&k, &mut v) {
                raw_hm_insert(m, k, v);
            }
        }
    }
    pub fn hs_retain<K, S, A, F: FnMut(&K) -> bool>(m: &mut HashSet<K, S>, mut f: F) {
        let old = std::mem::replace(m, raw_hs_new());
        for k in old {
            if f(&k) {
                raw_hs_insert(m, k);
            }
        }
    }
    pub fn bm_retain<K: Ord, V, A, F: FnMut(&K, &mut V) -> bool>(m: &mut BTreeMap<K, V>, mut f: F) {
        let old = std::mem::replace(m, BTreeMap::new());
        for (k, mut v) in old {
            if f(&k, &mut v) {
                m.insert(k, v);
            }
        }
    }
    // split on a predicate
    pub fn str_find_pred<F: FnMut(char) -> bool>(s: &str, mut f: F) -> Option<usize> {
        for (i, c) in s.char_indices() {
            if f(c) {
                return Some(i);
            }
        }
        None
    }
    pub fn str_rfind_pred<F: FnMut(char) -> bool>(s: &str, mut f: F) -> Option<usize> {
        for (i, c) in s.char_indices().rev() {
            if f(c) {
                return Some(i);
            }
        }
        None
    }
    pub fn str_starts_with_pred<F: FnMut(char) -> bool>(s: &str, mut f: F) -> bool {
        match s.chars().next() {
            Some(c) => f(c),
            None => false,
        }
    }
    pub fn str_ends_with_pred<F: FnMut(char) -> bool>(s: &str, mut f: F) -> bool {
        match s.chars().rev().next() {
            Some(c) => f(c),
            None => false,
        }
    }
    pub fn str_contains_pred<F: FnMut(char) -> bool>(s: &str, mut f: F) -> bool {
        for c in s.chars() {
            if f(c) {
                return true;
            }
        }
        false
    }
    pub fn str_split_pred<F: FnMut(char) -> bool>(s: &str, mut f: F) -> std::vec::IntoIter<&str> {
        let mut out = Vec::new();
        let mut start = 0;
        for (i, c) in s.char_indices() {
            if f(c) {
                out.push(&s[start..i]);
                start = i + c.len_utf8();
            }
        }
        out.push(&s[start..]);
        out.into_iter()
    }
    pub fn str_trim_start_pred<F: FnMut(char) -> bool>(s: &str, mut f: F) -> &str {
        for (i, c) in s.char_indices() {
            if !f(c) {
                return &s[i..];
            }
        }
        ""
    }
    pub fn str_trim_end_pred<F: FnMut(char) -> bool>(s: &str, mut f: F) -> &str {
        for (i, c) in s.char_indices().rev() {
            if !f(c) {
                return &s[..i + c.len_utf8()];
            }
        }
        ""
    }
    pub fn str_trim_pred<F: FnMut(char) -> bool>(s: &str, mut f: F) -> &str {
        let a = str_trim_start_pred(s, &mut f);
        str_trim_end_pred(a, f)
    }
    pub fn str_replace_pred<F: FnMut(char) -> bool>(s: &str, mut f: F, to: &str) -> String {
        let mut out = String::new();
        for c in s.chars() {
            if f(c) {
                raw_str_push(&mut out, to);
            } else {
                out.push(c);
            }
        }
        out
    }
    pub fn str_strip_prefix_pred<F: FnMut(char) -> bool>(s: &str, mut f: F) -> Option<&str> {
        match s.chars().next() {
            Some(c) if f(c) => Some(&s[c.len_utf8()..]),
            _ => None,
        }
    }
    pub fn str_strip_suffix_pred<F: FnMut(char) -> bool>(s: &str, mut f: F) -> Option<&str> {
        match s.chars().rev().next() {
            Some(c) if f(c) => Some(&s[..s.len() - c.len_utf8()]),
            _ => None,
        }
    }
    pub fn str_split_once_pred<F: FnMut(char) -> bool>(s: &str, mut f: F) -> Option<(&str, &str)> {
        for (i, c) in s.char_indices() {
            if f(c) {
                return Some((&s[..i], &s[i + c.len_utf8()..]));
            }
        }
        None
    }
    pub fn str_rsplit_once_pred<F: FnMut(char) -> bool>(s: &str, mut f: F) -> Option<(&str, &str)> {
        for (i, c) in s.char_indices().rev() {
            if f(c) {
                return Some((&s[..i], &s[i + c.len_utf8()..]));
            }
        }
        None
    }
    pub fn str_rsplit_pred<F: FnMut(char) -> bool>(s: &str, f: F) -> std::vec::IntoIter<&str> {
        let mut out = Vec::new();
        for x in str_split_pred(s, f).rev() {
            out.push(x);
        }
        out.into_iter()
    }
    pub fn str_split_terminator_pred<F: FnMut(char) -> bool>(s: &str, f: F) -> std::vec::IntoIter<&str> {
        let mut out = Vec::new();
        for x in str_split_pred(s, f) {
            out.push(x);
        }
        if out[out.len() - 1].is_empty() {
            out.pop();
        }
        out.into_iter()
    }
    pub fn str_splitn_pred<F: FnMut(char) -> bool>(s: &str, n: usize, mut f: F) -> std::vec::IntoIter<&str> {
        let mut out = Vec::new();
        if n > 0 {
            let mut start = 0;
            for (i, c) in s.char_indices() {
                if out.len() + 1 < n && f(c) {
                    out.push(&s[start..i]);
                    start = i + c.len_utf8();
                }
            }
            out.push(&s[start..]);
        }
        out.into_iter()
    }
    pub fn str_rsplitn_pred<F: FnMut(char) -> bool>(s: &str, n: usize, mut f: F) -> std::vec::IntoIter<&str> {
        let mut out = Vec::new();
        if n > 0 {
            let mut end = s.len();
            for (i, c) in s.char_indices().rev() {
                if out.len() + 1 < n && f(c) {
                    out.push(&s[i + c.len_utf8()..end]);
                    end = i;
                }
            }
            out.push(&s[..end]);
        }
        out.into_iter()
    }
    pub fn str_split_inclusive_pred<F: FnMut(char) -> bool>(s: &str, mut f: F) -> std::vec::IntoIter<&str> {
        let mut out = Vec::new();
        let mut start = 0;
        for (i, c) in s.char_indices() {
            if f(c) {
                out.push(&s[start..i + c.len_utf8()]);
                start = i + c.len_utf8();
            }
        }
        if start < s.len() {
            out.push(&s[start..]);
        }
        out.into_iter()
    }
    pub fn str_matches_pred<F: FnMut(char) -> bool>(s: &str, mut f: F) -> std::vec::IntoIter<&str> {
        let mut out = Vec::new();
        for (i, c) in s.char_indices() {
            if f(c) {
                out.push(&s[i..i + c.len_utf8()]);
            }
        }
        out.into_iter()
    }
    pub fn str_match_indices_pred<F: FnMut(char) -> bool>(s: &str, mut f: F) -> std::vec::IntoIter<(usize, &str)> {
        let mut out = Vec::new();
        for (i, c) in s.char_indices() {
            if f(c) {
                out.push((i, &s[i..i + c.len_utf8()]));
            }
        }
        out.into_iter()
    }
    /// Regex::replace* with a closure: `pieces` around the matches `caps`
    pub fn re_replace_with<C, S: AsRef<str>, F: FnMut(&C) -> S>(pieces: Vec<&str>, caps: Vec<C>, mut f: F) -> std::borrow::Cow<'static, str> {
        let mut out = String::new();
        let mut it = pieces.into_iter();
        if let Some(p) = it.next() {
            raw_str_push(&mut out, p);
        }
        for c in caps {
            raw_str_push(&mut out, f(&c).as_ref());
            if let Some(p) = it.next() {
                raw_str_push(&mut out, p);
            }
        }
        std::borrow::Cow::Owned(out)
    }
    pub fn array_map<T, const N: usize, F: FnMut(T) -> U, U>(a: [T; N], mut f: F) -> Vec<U> {
        let mut out = Vec::new();
        for x in a {
            out.push(f(x));
        }
        out
    }

    // formatting
    pub fn raw_fmt_len(a: &std::fmt::Arguments) -> usize {
        loop {}
    }
    pub fn raw_fmt_str(a: &std::fmt::Arguments, i: usize) -> Option<&'static str> {
        loop {}
    }
    pub fn raw_fmt_call(a: &std::fmt::Arguments, i: usize, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        loop {}
    }
    pub fn fmt_write(w: &mut dyn std::fmt::Write, a: std::fmt::Arguments) -> std::fmt::Result {
        let n = raw_fmt_len(&a);
        let mut i = 0;
        while i < n {
            match raw_fmt_str(&a, i) {
                Some(s) => w.write_str(s)?,
                None => {
                    let mut f = std::fmt::Formatter::new(w, std::fmt::FormattingOptions::new());
                    raw_fmt_call(&a, i, &mut f)?
                }
            }
            i += 1;
        }
        Ok(())
    }
    pub fn fmt_to_string(a: std::fmt::Arguments) -> String {
        let mut s = String::new();
        let _ = fmt_write(&mut s, a);
        s
    }
    pub fn fmt_pad(f: &mut std::fmt::Formatter, s: &str) -> std::fmt::Result {
        f.write_str(s)
    }
    pub fn to_string_display<T: std::fmt::Display + ?Sized>(x: &T) -> String {
        let mut s = String::new();
        let mut f = std::fmt::Formatter::new(&mut s, std::fmt::FormattingOptions::new());
        let _ = x.fmt(&mut f);
        s
    }
}
