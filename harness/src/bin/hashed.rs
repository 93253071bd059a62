//! Counters and disjoint sets together with the user code they call: panics in it (C32) and the hash
//! builders given to them (C33).
#![allow(dead_code, unused_macros, unused_imports, unused_variables)]
use advanced_collections::counter::Counter;
use advanced_collections::disjoint_set::DisjointSet;
use mc::alloc;
use mc::hash::*;
use mc::keys::*;
use mc::tok::{self, Ev};
use mc::*;
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash, Hasher};
use std::iter::FromIterator;
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[cfg(not(miri))]
#[global_allocator]
static A: alloc::Mon = alloc::Mon;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {{ mc::obs(); if !($c) { return Err(format!($($a)*)); } }};
}

// ---- keys with faults -------------------------------------------------------------------------------
/// Tracked; hashing, comparing, cloning and dropping may panic.
pub struct Pk(tok::Tok);
impl Clone for Pk {
    fn clone(&self) -> Pk {
        Pk(self.0.clone())
    }
}
impl PartialEq for Pk {
    fn eq(&self, o: &Pk) -> bool {
        tok::point(Ev::Eq);
        self.0.val() == o.0.val()
    }
}
impl Eq for Pk {}
impl Hash for Pk {
    fn hash<H: Hasher>(&self, h: &mut H) {
        tok::point(Ev::Hash);
        match self.0.val() {
            v @ 0..=7 => h.write_u8(v as u8),
            v => h.write_u32(v),
        }
    }
}
impl Debug for Pk {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0.val())
    }
}
impl Key for Pk {
    fn mk(n: u32) -> Pk {
        Pk(tok::Tok::new(n))
    }
    fn id(&self) -> u32 {
        self.0.val()
    }
}
/// Copy; hashing and comparing may panic.
#[derive(Clone, Copy)]
pub struct Ck(u32);
impl PartialEq for Ck {
    fn eq(&self, o: &Ck) -> bool {
        tok::point(Ev::Eq);
        self.0 == o.0
    }
}
impl Eq for Ck {}
impl Hash for Ck {
    fn hash<H: Hasher>(&self, h: &mut H) {
        tok::point(Ev::Hash);
        match self.0 {
            v @ 0..=7 => h.write_u8(v as u8),
            v => h.write_u32(v),
        }
    }
}
impl Debug for Ck {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl Key for Ck {
    fn mk(n: u32) -> Ck {
        Ck(n)
    }
    fn id(&self) -> u32 {
        self.0
    }
}
/// A feeding iterator which may panic.
struct Burst<I>(Feed<I>);
impl<I: ExactSizeIterator> Iterator for Burst<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        tok::point(Ev::Next);
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
fn burst<I: ExactSizeIterator>(i: I, h: Hint) -> Burst<I> {
    Burst(Feed(i, h))
}
fn ks<T: Key>(v: &[u32]) -> Vec<T> {
    v.iter().map(|k| T::mk(*k)).collect()
}
fn bytes(s: &str, out: &mut Vec<u64>) {
    out.push(s.len() as u64);
    for c in s.as_bytes().chunks(8) {
        let mut b = [0; 8];
        b[..c.len()].copy_from_slice(c);
        out.push(u64::from_le_bytes(b));
    }
}
type Fault = Option<(Ev, u32)>;
/// Every call at which an operation can panic: `n` is the number of keys it may hash, compare, clone and fetch.
fn faults(hash: u32, eq: u32, clone: u32, next: u32) -> Vec<Fault> {
    let mut v: Vec<Fault> = vec![None];
    for (e, m) in [(Ev::Hash, hash), (Ev::Eq, eq), (Ev::Clone, clone), (Ev::Next, next)] {
        for n in 0..m {
            v.push(Some((e, n)));
        }
    }
    v
}
/// The same, and every element it may destroy.
fn and_drop(mut v: Vec<Fault>, drop: u32) -> Vec<Fault> {
    v.extend((0..drop).map(|n| Some((Ev::Drop, n))));
    v
}
/// Runs `f` with the fault armed. Some(r): it ran to its end. None: the injected panic came out of it.
/// A fault that did not happen disables the step (it is the same as the one without a fault).
enum Ran<R> {
    Done(R),
    Blown,
    Same,
}
fn inject<R>(fault: Fault, f: impl FnOnce() -> R) -> Result<Ran<R>, String> {
    match fault {
        None => Ok(Ran::Done(f())),
        Some((e, n)) => {
            tok::arm(e, n);
            let r = catch_unwind(AssertUnwindSafe(f));
            let blown = tok::disarm();
            match r {
                Ok(_) if !blown => Ok(Ran::Same),
                Ok(_) => Err("a panic of the user's code was swallowed".into()),
                Err(_) if blown => Ok(Ran::Blown),
                Err(p) => std::panic::resume_unwind(p),
            }
        }
    }
}

// ---- C32: counters ----------------------------------------------------------------------------------
type Mc = BTreeMap<u32, usize>;
#[derive(Clone, Debug, PartialEq)]
enum Cop {
    Push(u32),
    Ext(Vec<u32>, Hint),
    ExtRef(Vec<u32>, Hint),
    From(Vec<u32>, Hint),
    FromRef(Vec<u32>, Hint),
    AddV(Vec<(u32, usize)>),
    AddR(Vec<(u32, usize)>),
    SubV(Vec<(u32, usize)>),
    SubR(Vec<(u32, usize)>),
    PlusV(Vec<(u32, usize)>),
    PlusR(Vec<(u32, usize)>),
    MinusV(Vec<(u32, usize)>),
    MinusR(Vec<(u32, usize)>),
    MapV(Vec<(u32, usize)>),
    MapR(Vec<(u32, usize)>),
    Common,
    CloneTo,
    CloneFrom(Vec<(u32, usize)>),
    CloneInto(Vec<(u32, usize)>),
    Equal(Vec<(u32, usize)>),
    Clear,
}
struct Cf<T: Key> {
    /// what the counter contains at first
    start: Vec<u32>,
    name: String,
    table: Table,
    rhs_table: Table,
    ops: Vec<(Cop, Fault)>,
    universe: u32,
    max: usize,
    by_ref: Option<fn(&mut Counter<T, Table>, &[u32], Hint)>,
}
struct Cs<T: Key> {
    c: Counter<T, Table>,
    m: Mc,
    faulty: bool,
}
/// The entries of a counter, read without hashing or comparing.
fn entries<T: Key, S: BuildHasher>(what: &str, c: &Counter<T, S>) -> Result<Mc, String> {
    let mut m = Mc::new();
    for (k, n) in c {
        ensure!(m.insert(k.id(), *n).is_none(), "{}: {} is there twice", what, k.id());
    }
    ensure!(c.len() == m.len() && c.is_empty() == m.is_empty(), "{}: len() is {} with {} entries", what, c.len(), m.len());
    Ok(m)
}
fn mc(v: &[(u32, usize)]) -> Mc {
    let mut m = Mc::new();
    for (k, n) in v {
        m.insert(*k, *n);
    }
    m
}
fn made<T: Key, S: BuildHasher>(s: S, v: &[(u32, usize)]) -> Counter<T, S> {
    let mut m = HashMap::with_hasher(s);
    for (k, n) in v {
        m.insert(T::mk(*k), *n);
    }
    Counter::from_hashmap(m)
}
fn plus(a: &Mc, b: &Mc) -> Mc {
    let mut m = a.clone();
    for (k, n) in b {
        *m.entry(*k).or_insert(0) += n;
    }
    m
}
fn minus(a: &Mc, b: &Mc) -> Mc {
    a.iter().filter(|(k, n)| b.get(k).map(|x| x < n).unwrap_or(true)).map(|(k, n)| (*k, n - b.get(k).unwrap_or(&0))).collect()
}
fn count(m: &Mc, v: &[u32]) -> Mc {
    let mut m = m.clone();
    for k in v {
        *m.entry(*k).or_insert(0) += 1;
    }
    m
}
/// Every count lies between the two, and nothing has a count of zero.
fn between(what: &str, got: &Mc, a: &Mc, b: &Mc) -> Res {
    for k in got.keys().chain(a.keys()).chain(b.keys()) {
        let (g, x, y) = (got.get(k), *a.get(k).unwrap_or(&0), *b.get(k).unwrap_or(&0));
        ensure!(g != Some(&0), "{}: {} is there with a count of zero", what, k);
        let g = *g.unwrap_or(&0);
        ensure!(x.min(y) <= g && g <= x.max(y), "{}: {} has count {}, before the operation it was {}, afterwards it would have been {}", what, k, g, x, y);
    }
    Ok(())
}
fn cext<T: Key + Copy>(c: &mut Counter<T, Table>, v: &[u32], h: Hint) {
    let w = ks::<T>(v);
    c.extend(burst(w.iter(), h))
}
impl<T: Key> Cf<T> {
    fn op(&self, i: u16) -> (&Cop, Fault) {
        let (o, f) = &self.ops[i as usize];
        (o, *f)
    }
}
impl<T: Key> Scn for Cf<T> {
    type St = Cs<T>;
    fn label(&self) -> String {
        self.name.clone()
    }
    fn nops(&self) -> usize {
        self.ops.len()
    }
    fn op_str(&self, op: u16) -> String {
        match self.op(op) {
            (o, None) => format!("{:?}", o),
            (o, Some((e, n))) => format!("{:?} with a panic in {:?} call {}", o, e, n + 1),
        }
    }
    fn init(&self) -> Cs<T> {
        set_default(self.table);
        let mut c = Counter::with_hasher(self.table);
        ks(&self.start).into_iter().for_each(|k| c.push(k));
        Cs { c, m: count(&Mc::new(), &self.start), faulty: false }
    }
    fn step(&self, st: &mut Cs<T>, op: u16) -> Step {
        let (op, fault) = self.op(op);
        let Cs { c, m, faulty } = st;
        let old = m.clone();
        // what the operation makes of the counter when nothing goes wrong
        let new = match op {
            Cop::Push(k) => count(&old, &[*k]),
            Cop::Ext(v, _) | Cop::ExtRef(v, _) => count(&old, v),
            Cop::From(v, _) | Cop::FromRef(v, _) => count(&Mc::new(), v),
            Cop::AddV(v) | Cop::AddR(v) | Cop::PlusV(v) | Cop::PlusR(v) => plus(&old, &mc(v)),
            Cop::SubV(v) | Cop::SubR(v) | Cop::MinusV(v) | Cop::MinusR(v) => minus(&old, &mc(v)),
            Cop::MapV(v) | Cop::MapR(v) | Cop::CloneInto(v) => mc(v),
            Cop::Clear => Mc::new(),
            Cop::Common | Cop::CloneTo | Cop::CloneFrom(_) | Cop::Equal(_) => old.clone(),
        };
        if new.values().any(|n| *n > self.max) {
            return Ok(Flow::Disabled);
        }
        let same = matches!(op, Cop::From(..) | Cop::FromRef(..) | Cop::MapV(_) | Cop::MapR(_) | Cop::Common | Cop::CloneTo | Cop::CloneFrom(_) | Cop::Equal(_));
        let lost = matches!(op, Cop::PlusV(_) | Cop::PlusR(_) | Cop::MinusV(_) | Cop::MinusR(_));
        let t2 = Table2(self.rhs_table);
        let mut checks: Vec<(&str, Mc, Mc)> = vec![];
        let r: Ran<()> = match op {
            Cop::Push(k) => {
                let k = T::mk(*k);
                inject(fault, || c.push(k))?
            }
            Cop::Ext(v, h) => {
                let v = ks::<T>(v);
                inject(fault, || c.extend(burst(v.into_iter(), *h)))?
            }
            Cop::ExtRef(v, h) => match self.by_ref {
                None => return Ok(Flow::Disabled),
                Some(f) => inject(fault, || f(c, v, *h))?,
            },
            Cop::From(v, h) => {
                let v = ks::<T>(v);
                match inject(fault, || Counter::<T, Table>::from_iter(burst(v.into_iter(), *h)))? {
                    Ran::Done(x) => Ran::Done(*c = x),
                    Ran::Blown => Ran::Blown,
                    Ran::Same => Ran::Same,
                }
            }
            Cop::FromRef(v, h) => {
                let v = ks::<T>(v);
                match inject(fault, || Counter::<T, Table>::from_iter(burst(v.iter(), *h)))? {
                    Ran::Done(x) => Ran::Done(*c = x),
                    Ran::Blown => Ran::Blown,
                    Ran::Same => Ran::Same,
                }
            }
            Cop::AddV(v) => {
                let r = made::<T, _>(t2, v);
                inject(fault, || *c += r)?
            }
            Cop::SubV(v) => {
                let r = made::<T, _>(t2, v);
                inject(fault, || *c -= r)?
            }
            Cop::AddR(v) => {
                let r = made::<T, _>(t2, v);
                let x = inject(fault, || *c += &r)?;
                checks.push(("the right side", entries("the right side", &r)?, mc(v)));
                x
            }
            Cop::SubR(v) => {
                let r = made::<T, _>(t2, v);
                let x = inject(fault, || *c -= &r)?;
                checks.push(("the right side", entries("the right side", &r)?, mc(v)));
                x
            }
            Cop::PlusV(v) | Cop::MinusV(v) => {
                let r = made::<T, _>(t2, v);
                let l = std::mem::take(c);
                let add = matches!(op, Cop::PlusV(_));
                match inject(fault, || if add { l + r } else { l - r })? {
                    Ran::Done(x) => Ran::Done(*c = x),
                    Ran::Blown => Ran::Blown,
                    Ran::Same => Ran::Same,
                }
            }
            Cop::PlusR(v) | Cop::MinusR(v) => {
                let r = made::<T, _>(t2, v);
                let l = std::mem::take(c);
                let add = matches!(op, Cop::PlusR(_));
                let x = match inject(fault, || if add { l + &r } else { l - &r })? {
                    Ran::Done(x) => Ran::Done(*c = x),
                    Ran::Blown => Ran::Blown,
                    Ran::Same => Ran::Same,
                };
                checks.push(("the right side", entries("the right side", &r)?, mc(v)));
                x
            }
            Cop::MapV(v) => {
                let mut r = HashMap::with_hasher(t2);
                v.iter().for_each(|(k, n)| {
                    r.insert(T::mk(*k), *n);
                });
                match inject(fault, || Counter::<T, Table>::from(r))? {
                    Ran::Done(x) => Ran::Done(*c = x),
                    Ran::Blown => Ran::Blown,
                    Ran::Same => Ran::Same,
                }
            }
            Cop::MapR(v) => {
                let mut r = HashMap::with_hasher(t2);
                v.iter().for_each(|(k, n)| {
                    r.insert(T::mk(*k), *n);
                });
                match inject(fault, || Counter::<T, Table>::from(&r))? {
                    Ran::Done(x) => Ran::Done(*c = x),
                    Ran::Blown => Ran::Blown,
                    Ran::Same => Ran::Same,
                }
            }
            Cop::Common => match inject(fault, || c.most_common())? {
                Ran::Done(_) => Ran::Done(()),
                Ran::Blown => Ran::Blown,
                Ran::Same => Ran::Same,
            },
            Cop::CloneTo => match inject(fault, || c.clone())? {
                Ran::Done(x) => {
                    checks.push(("the clone", entries("the clone", &x)?, old.clone()));
                    Ran::Done(())
                }
                Ran::Blown => Ran::Blown,
                Ran::Same => Ran::Same,
            },
            Cop::CloneFrom(v) => {
                let mut r = made::<T, _>(self.table, v);
                let x = inject(fault, || r.clone_from(c))?;
                let g = entries("the target", &r)?;
                match x {
                    Ran::Done(()) => checks.push(("the target", g, old.clone())),
                    Ran::Blown => {
                        for (k, n) in &g {
                            ensure!(old.get(k) == Some(n) || mc(v).get(k) == Some(n), "a copy that panicked left {} with count {} in the target", k, n);
                        }
                    }
                    Ran::Same => {}
                }
                x
            }
            Cop::CloneInto(v) => {
                let r = made::<T, _>(self.table, v);
                let x = inject(fault, || c.clone_from(&r))?;
                checks.push(("the source", entries("the source", &r)?, mc(v)));
                x
            }
            Cop::Equal(v) => {
                let r = made::<T, _>(self.table, v);
                let x = match inject(fault, || *c == r)? {
                    Ran::Done(e) => {
                        ensure!(e == (old == mc(v)), "== is {}", e);
                        Ran::Done(())
                    }
                    Ran::Blown => Ran::Blown,
                    Ran::Same => Ran::Same,
                };
                checks.push(("the right side", entries("the right side", &r)?, mc(v)));
                x
            }
            Cop::Clear => inject(fault, || c.clear())?,
        };
        for (w, got, want) in checks {
            ensure!(got == want, "{} is {:?}, expected {:?}", w, got, want);
        }
        let got = entries("counter", c)?;
        match r {
            Ran::Same => return Ok(Flow::Disabled),
            Ran::Done(()) => {
                ensure!(got == new, "counter is {:?}, expected {:?}", got, new);
            }
            Ran::Blown => {
                *faulty = true;
                if lost {
                    *c = Counter::with_hasher(self.table);
                    *m = Mc::new();
                    return Ok(Flow::Go);
                }
                if let Cop::CloneInto(v) = op {
                    for (k, n) in &got {
                        ensure!(old.get(k) == Some(n) || mc(v).get(k) == Some(n), "a copy that panicked left {} with count {}", k, n);
                    }
                } else if same {
                    ensure!(got == old, "after the panic the counter is {:?}, it was {:?}", got, old);
                } else {
                    between("after the panic", &got, &old, &new)?;
                }
            }
        }
        *m = got;
        Ok(Flow::Go)
    }
    fn key(&self, st: &Cs<T>) -> Vec<u64> {
        let mut k = vec![st.faulty as u64, st.c.capacity() as u64];
        bytes(&format!("{:?}", st.c), &mut k);
        k
    }
    fn check(&self, st: &mut Cs<T>) -> Res {
        for k in 0..self.universe {
            let key = T::mk(k);
            ensure!(st.c.get(&key) == st.m.get(&k), "the count of {} is {:?}, expected {:?}", k, st.c.get(&key), st.m.get(&k));
        }
        for k in 0..self.universe {
            st.c.push(T::mk(k));
            *st.m.entry(k).or_insert(0) += 1;
        }
        let g = entries("counter", &st.c)?;
        ensure!(g == st.m, "after counting every element once more the counter is {:?}, expected {:?}", g, st.m);
        Ok(())
    }
    fn end(&self, st: Cs<T>) -> Res {
        let f = st.faulty;
        drop(st);
        ensure!(f || tok::live() == 0, "{} elements are alive after the counter was dropped", tok::live());
        Ok(())
    }
}

/// The operations, each without and with every fault. `e`: how many comparisons a look-up may take.
fn counter_ops(by_ref: bool, e: u32, rich: bool) -> Vec<(Cop, Fault)> {
    let mut o = vec![];
    let mut add = |op: Cop, f: Vec<Fault>| {
        // what is copied is not destroyed
        let f = if by_ref { f } else { and_drop(f, 5) };
        f.into_iter().for_each(|f| o.push((op.clone(), f)))
    };
    for k in 0..4 {
        add(Cop::Push(k), faults(5, e, 0, 0));
    }
    let mut lists = vec![(vec![1, 0], Hint::Exact), (vec![2, 2, 0], Hint::Low), (vec![3, 1, 2, 0], Hint::Unknown)];
    if rich {
        lists.extend([(vec![3, 1], Hint::Over), (vec![4, 0, 1, 2], Hint::Exact)]);
    }
    for (v, h) in lists {
        let n = v.len() as u32;
        add(Cop::Ext(v.clone(), h), faults(n + 4, e * n, 0, n + 1));
        if by_ref {
            add(Cop::ExtRef(v.clone(), h), faults(n + 4, e * n, 0, n + 1));
        }
        add(Cop::From(v.clone(), h), faults(n + 4, e * n, 0, n + 1));
        add(Cop::FromRef(v, h), faults(n + 4, e * n, n, n + 1));
    }
    let mut sides = vec![vec![(1, 2), (2, 1)], vec![(0, 1), (2, 1), (3, 1)]];
    if rich {
        sides.extend([vec![(0, 1)], vec![(0, 2), (1, 1), (2, 2), (4, 1)]]);
    }
    for v in sides {
        let n = v.len() as u32;
        for f in [Cop::AddV, Cop::SubV, Cop::PlusV, Cop::MinusV] {
            add(f(v.clone()), faults(n + 4, e * n, 0, 0));
        }
        for f in [Cop::AddR, Cop::SubR, Cop::PlusR, Cop::MinusR] {
            add(f(v.clone()), faults(n + 4, e * n, n, 0));
        }
    }
    for v in [vec![], vec![(1, 2), (2, 1)], vec![(0, 2), (1, 1), (2, 2), (3, 1)]] {
        let n = v.len() as u32;
        if n != 2 {
            add(Cop::MapV(v.clone()), faults(n + 4, e * n, 0, 0));
            add(Cop::MapR(v.clone()), faults(n + 4, e * n, n, 0));
        }
        add(Cop::CloneFrom(v.clone()), faults(5, 0, 5, 0));
        add(Cop::CloneInto(v.clone()), faults(5, 0, 5, 0));
        if n > 0 {
            add(Cop::Equal(v.clone()), faults(5, 4 * e, 0, 0));
        }
    }
    add(Cop::Common, faults(0, 0, 5, 0));
    add(Cop::CloneTo, faults(5, 0, 5, 0));
    add(Cop::Clear, faults(0, 0, 0, 0));
    o
}

// ---- C32: disjoint sets -----------------------------------------------------------------------------
/// Each element with the smallest element of its subset.
type Md = BTreeMap<u32, u32>;
fn munion(m: &Md, a: u32, b: u32) -> Md {
    let mut m = m.clone();
    m.entry(a).or_insert(a);
    m.entry(b).or_insert(b);
    let (x, y) = (m[&a].min(m[&b]), m[&a].max(m[&b]));
    m.values_mut().for_each(|v| {
        if *v == y {
            *v = x
        }
    });
    m
}
fn mmake(m: &Md, v: &[u32]) -> Md {
    let mut m = m.clone();
    v.iter().for_each(|k| {
        m.entry(*k).or_insert(*k);
    });
    m
}
fn partition<T: Key, S: BuildHasher>(what: &str, d: &mut DisjointSet<T, S>) -> Result<Md, String> {
    let mut m = Md::new();
    for g in d.into_iter() {
        let g: Vec<u32> = g.map(|k| k.id()).collect();
        let l = match g.iter().min() {
            None => return Err(format!("{}: an empty group", what)),
            Some(l) => *l,
        };
        for k in g {
            ensure!(m.insert(k, l).is_none(), "{}: {} is there twice", what, k);
        }
    }
    ensure!(d.len() == m.len() && d.is_empty() == m.is_empty(), "{}: len() is {} with {} elements", what, d.len(), m.len());
    Ok(m)
}
#[derive(Clone, Debug, PartialEq)]
enum Dop {
    Make(u32),
    Union(u32, u32),
    InUnion(u32, u32),
    Contains(u32),
    Ext(Vec<u32>, Hint),
    ExtRef(Vec<u32>, Hint),
    From(Vec<u32>, Hint),
    FromRef(Vec<u32>, Hint),
    Reserve(usize),
    CloneTo,
    CloneFrom(Vec<u32>),
    CloneInto(Vec<u32>),
    Iterate,
    Clear,
}
struct Df<T: Key> {
    /// pairs that are united at first, and what that makes
    start: (Vec<(u32, u32)>, Md),
    name: String,
    table: Table,
    ops: Vec<(Dop, Fault)>,
    universe: u32,
    by_ref: Option<fn(&mut DisjointSet<T, Table>, &[u32], Hint)>,
}
struct Ds<T: Key> {
    d: DisjointSet<T, Table>,
    m: Md,
    faulty: bool,
}
fn dext<T: Key + Copy>(c: &mut DisjointSet<T, Table>, v: &[u32], h: Hint) {
    let w = ks::<T>(v);
    c.extend(burst(w.iter(), h))
}
fn dmade<T: Key, S: BuildHasher>(s: S, v: &[u32]) -> DisjointSet<T, S> {
    let mut d = DisjointSet::with_hasher(s);
    v.iter().for_each(|k| d.make_set(T::mk(*k)));
    if v.len() > 1 {
        d.union(T::mk(v[0]), T::mk(v[1]));
    }
    d
}
fn dm(v: &[u32]) -> Md {
    let m = mmake(&Md::new(), v);
    if v.len() > 1 {
        munion(&m, v[0], v[1])
    } else {
        m
    }
}
impl<T: Key> Df<T> {
    fn op(&self, i: u16) -> (&Dop, Fault) {
        let (o, f) = &self.ops[i as usize];
        (o, *f)
    }
}
impl<T: Key> Scn for Df<T> {
    type St = Ds<T>;
    fn label(&self) -> String {
        self.name.clone()
    }
    fn nops(&self) -> usize {
        self.ops.len()
    }
    fn op_str(&self, op: u16) -> String {
        match self.op(op) {
            (o, None) => format!("{:?}", o),
            (o, Some((e, n))) => format!("{:?} with a panic in {:?} call {}", o, e, n + 1),
        }
    }
    fn init(&self) -> Ds<T> {
        set_default(self.table);
        let mut d = DisjointSet::with_hasher(self.table);
        self.start.0.iter().for_each(|(a, b)| d.union(T::mk(*a), T::mk(*b)));
        Ds { d, m: self.start.1.clone(), faulty: false }
    }
    fn step(&self, st: &mut Ds<T>, op: u16) -> Step {
        let (op, fault) = self.op(op);
        let Ds { d, m, faulty } = st;
        let old = m.clone();
        let new = match op {
            Dop::Make(k) => mmake(&old, &[*k]),
            Dop::Union(a, b) => munion(&old, *a, *b),
            Dop::Ext(v, _) | Dop::ExtRef(v, _) => mmake(&old, v),
            Dop::From(v, _) | Dop::FromRef(v, _) => mmake(&Md::new(), v),
            Dop::CloneInto(v) => dm(v),
            Dop::Clear => Md::new(),
            _ => old.clone(),
        };
        macro_rules! unit {
            ($e:expr) => {
                match $e {
                    Ran::Done(_) => Ran::Done(()),
                    Ran::Blown => Ran::Blown,
                    Ran::Same => Ran::Same,
                }
            };
        }
        let mut args: Vec<u32> = vec![];
        let r: Ran<()> = match op {
            Dop::Make(k) => {
                args = vec![*k];
                let k = T::mk(*k);
                inject(fault, || d.make_set(k))?
            }
            Dop::Union(a, b) => {
                args = vec![*a, *b];
                let (a, b) = (T::mk(*a), T::mk(*b));
                inject(fault, || d.union(a, b))?
            }
            Dop::InUnion(a, b) => {
                let (x, y) = (T::mk(*a), T::mk(*b));
                let r = inject(fault, || d.in_union(&x, &y))?;
                if let Ran::Done(g) = r {
                    let w = old.contains_key(a) && old.contains_key(b) && old[a] == old[b];
                    ensure!(g == w, "in_union({}, {}) is {}, expected {}", a, b, g, w);
                }
                unit!(r)
            }
            Dop::Contains(a) => {
                let x = T::mk(*a);
                let r = inject(fault, || d.contains(&x))?;
                if let Ran::Done(g) = r {
                    ensure!(g == old.contains_key(a), "contains({}) is {}", a, g);
                }
                unit!(r)
            }
            Dop::Ext(v, h) => {
                args = v.clone();
                let v = ks::<T>(v);
                inject(fault, || d.extend(burst(v.into_iter(), *h)))?
            }
            Dop::ExtRef(v, h) => match self.by_ref {
                None => return Ok(Flow::Disabled),
                Some(f) => {
                    args = v.clone();
                    inject(fault, || f(d, v, *h))?
                }
            },
            Dop::From(v, h) => {
                let v = ks::<T>(v);
                match inject(fault, || DisjointSet::<T, Table>::from_iter(burst(v.into_iter(), *h)))? {
                    Ran::Done(x) => Ran::Done(*d = x),
                    Ran::Blown => Ran::Blown,
                    Ran::Same => Ran::Same,
                }
            }
            Dop::FromRef(v, h) => {
                let v = ks::<T>(v);
                match inject(fault, || DisjointSet::<T, Table>::from_iter(burst(v.iter(), *h)))? {
                    Ran::Done(x) => Ran::Done(*d = x),
                    Ran::Blown => Ran::Blown,
                    Ran::Same => Ran::Same,
                }
            }
            Dop::Reserve(n) => inject(fault, || d.reserve(*n))?,
            Dop::CloneTo => {
                let mut r = inject(fault, || d.clone())?;
                if let Ran::Done(x) = &mut r {
                    let g = partition("the clone", x)?;
                    ensure!(g == old, "the clone is {:?}, expected {:?}", g, old);
                }
                unit!(r)
            }
            Dop::CloneFrom(v) => {
                let mut t = dmade::<T, _>(self.table, v);
                let r = inject(fault, || t.clone_from(d))?;
                let g = partition("the target", &mut t)?;
                match r {
                    Ran::Done(()) => ensure!(g == old, "the target is {:?}, expected {:?}", g, old),
                    Ran::Blown => g.keys().try_for_each(|k| {
                        ensure!(old.contains_key(k) || v.contains(k), "a copy that panicked left {} in the target", k);
                        Ok(())
                    })?,
                    Ran::Same => {}
                }
                r
            }
            Dop::CloneInto(v) => {
                let mut s = dmade::<T, _>(self.table, v);
                let r = inject(fault, || d.clone_from(&s))?;
                let g = partition("the source", &mut s)?;
                ensure!(g == dm(v), "the source is {:?}, expected {:?}", g, dm(v));
                r
            }
            Dop::Iterate => unit!(inject(fault, || d.into_iter().map(|g| g.count()).sum::<usize>())?),
            Dop::Clear => inject(fault, || d.clear())?,
        };
        let got = partition("set", d)?;
        match r {
            Ran::Same => return Ok(Flow::Disabled),
            Ran::Done(()) => ensure!(got == new, "the partition is {:?}, expected {:?}", got, new),
            Ran::Blown => {
                *faulty = true;
                if let Dop::CloneInto(v) = op {
                    for k in got.keys() {
                        ensure!(old.contains_key(k) || v.contains(k), "a copy that panicked left {}", k);
                    }
                } else if got != new {
                    let added: Vec<u32> = got.keys().filter(|k| !old.contains_key(k)).cloned().collect();
                    ensure!(added.iter().all(|k| args.contains(k)), "after the panic the set contains {:?} which nobody added", added);
                    let want = mmake(&old, &added);
                    ensure!(got == want, "after the panic the partition is {:?}, it was {:?} and would have become {:?}", got, old, new);
                }
            }
        }
        *m = got;
        Ok(Flow::Go)
    }
    fn key(&self, st: &Ds<T>) -> Vec<u64> {
        let mut k = vec![st.faulty as u64];
        bytes(&format!("{:?}", st.d), &mut k);
        k
    }
    fn check(&self, st: &mut Ds<T>) -> Res {
        let Ds { d, m, .. } = st;
        for _ in 0..2 {
            for a in 0..self.universe {
                let x = T::mk(a);
                ensure!(d.contains(&x) == m.contains_key(&a), "contains({}) is {}", a, !m.contains_key(&a));
                for b in 0..self.universe {
                    let y = T::mk(b);
                    let w = m.contains_key(&a) && m.contains_key(&b) && m[&a] == m[&b];
                    ensure!(d.in_union(&x, &y) == w, "in_union({}, {}) is {}, expected {}", a, b, !w, w);
                }
            }
            // new elements are new subsets
            let fresh: Vec<u32> = (0..self.universe).collect();
            for k in &fresh {
                d.make_set(T::mk(*k));
            }
            *m = mmake(m, &fresh);
        }
        let g = partition("set", d)?;
        ensure!(g == *m, "after adding every element the partition is {:?}, expected {:?}", g, m);
        Ok(())
    }
    fn end(&self, st: Ds<T>) -> Res {
        let f = st.faulty;
        drop(st);
        ensure!(f || tok::live() == 0, "{} elements are alive after the set was dropped", tok::live());
        Ok(())
    }
}
fn dset_ops(n: u32, by_ref: bool, e: u32) -> Vec<(Dop, Fault)> {
    let mut o = vec![];
    let mut add = |op: Dop, f: Vec<Fault>| {
        let f = if by_ref { f } else { and_drop(f, 5) };
        f.into_iter().for_each(|f| o.push((op.clone(), f)))
    };
    for a in 0..n {
        add(Dop::Make(a), faults(5, e, 0, 0));
        add(Dop::Contains(a), faults(2, e, 0, 0));
        for b in 0..n {
            add(Dop::Union(a, b), faults(6, 2 * e, 0, 0));
            if a <= b {
                add(Dop::InUnion(a, b), faults(3, 2 * e, 0, 0));
            }
        }
    }
    for (v, h) in [(vec![1, 0], Hint::Exact), (vec![2, 2, 0], Hint::Low), (vec![3, 1], Hint::Over), (vec![n, 0, 1, 2], Hint::Exact), (vec![3, 0], Hint::Unknown)] {
        let l = v.len() as u32;
        add(Dop::Ext(v.clone(), h), faults(l + 4, e * l, 0, l + 1));
        if by_ref {
            add(Dop::ExtRef(v.clone(), h), faults(l + 4, e * l, 0, l + 1));
        }
        if l > 2 {
            add(Dop::From(v.clone(), h), faults(l + 4, e * l, 0, l + 1));
            add(Dop::FromRef(v, h), faults(l + 4, e * l, l, l + 1));
        }
    }
    for v in [vec![], vec![1, 2], vec![3, 0, 1, n]] {
        add(Dop::CloneFrom(v.clone()), faults(4, 0, 5, 0));
        add(Dop::CloneInto(v), faults(4, 0, 5, 0));
    }
    add(Dop::Reserve(1), faults(5, e, 0, 0));
    add(Dop::Reserve(4), faults(5, e, 0, 0));
    add(Dop::CloneTo, faults(4, 0, 5, 0));
    add(Dop::Iterate, faults(1, 1, 0, 0));
    add(Dop::Clear, faults(1, 1, 0, 0));
    o
}

/// Operations with many elements, each without a fault and with faults at the first, middle and last calls.
fn far(e: Ev, n: u32) -> Vec<Fault> {
    let mut v: Vec<u32> = vec![0, 1, n / 3, n / 2, n.saturating_sub(2), n.saturating_sub(1), n, n + n / 2, 2 * n];
    v.sort();
    v.dedup();
    v.into_iter().map(|k| Some((e, k))).collect()
}
fn far_faults(n: u32) -> Vec<Fault> {
    let mut v = vec![None];
    for e in [Ev::Hash, Ev::Eq, Ev::Clone, Ev::Next, Ev::Drop] {
        v.extend(far(e, n))
    }
    v
}
fn lists(n: u32) -> Vec<Vec<u32>> {
    vec![(0..n).collect(), (n / 2..n / 2 + n).rev().collect(), (3 * n..4 * n).collect(), (0..n).map(|k| n + k % (n / 3)).collect()]
}
fn many_counter_ops(n: u32, by_ref: bool) -> Vec<(Cop, Fault)> {
    let mut o = vec![];
    for v in lists(n) {
        let side: Vec<(u32, usize)> = mc(&v.iter().map(|k| (*k, 1 + *k as usize % 2)).collect::<Vec<_>>()).into_iter().collect();
        let mut ops = vec![Cop::AddV(side.clone()), Cop::AddR(side.clone()), Cop::SubV(side.clone()), Cop::SubR(side.clone()), Cop::PlusV(side.clone()), Cop::MinusR(side.clone()), Cop::MapV(side.clone()), Cop::MapR(side.clone()), Cop::CloneFrom(side.clone()), Cop::CloneInto(side.clone()), Cop::Equal(side)];
        for h in [Hint::Exact, Hint::Unknown, Hint::Over, Hint::Low] {
            ops.extend([Cop::Ext(v.clone(), h), Cop::From(v.clone(), h), Cop::FromRef(v.clone(), h)]);
            if by_ref {
                ops.push(Cop::ExtRef(v.clone(), h))
            }
        }
        ops.into_iter().for_each(|x| far_faults(n).into_iter().for_each(|f| o.push((x.clone(), f))));
    }
    for x in [Cop::Common, Cop::CloneTo, Cop::Clear] {
        far_faults(n).into_iter().for_each(|f| o.push((x.clone(), f)))
    }
    // what is copied is not destroyed; a destructor that panics while a map is torn down leaks, and may
    o.into_iter().filter(|(x, f)| !(by_ref || matches!(x, Cop::Clear)) || !matches!(f, Some((Ev::Drop, _)))).collect()
}
fn many_dset_ops(n: u32, by_ref: bool) -> Vec<(Dop, Fault)> {
    let mut o = vec![];
    for v in lists(n) {
        let mut ops = vec![Dop::CloneFrom(v.clone()), Dop::CloneInto(v.clone())];
        for h in [Hint::Exact, Hint::Unknown, Hint::Over, Hint::Low] {
            ops.extend([Dop::Ext(v.clone(), h), Dop::From(v.clone(), h), Dop::FromRef(v.clone(), h)]);
            if by_ref {
                ops.push(Dop::ExtRef(v.clone(), h))
            }
        }
        ops.into_iter().for_each(|x| far_faults(n).into_iter().for_each(|f| o.push((x.clone(), f))));
    }
    for x in [Dop::CloneTo, Dop::Clear, Dop::Iterate, Dop::Reserve(4 * n as usize), Dop::Union(0, n / 2 + 1), Dop::Union(5 * n, 5 * n + 1), Dop::InUnion(0, n - 1), Dop::Make(5 * n)] {
        far_faults(n).into_iter().for_each(|f| o.push((x.clone(), f)))
    }
    o.into_iter().filter(|(x, f)| !(by_ref || matches!(x, Dop::Clear)) || !matches!(f, Some((Ev::Drop, _)))).collect()
}

// ---- C33: hash builders -----------------------------------------------------------------------------
/// A builder with an identity: builders of different identity hash differently. `B` distinguishes types.
#[derive(Debug, PartialEq, Eq)]
pub struct Tag<const B: u8>(u32);
thread_local! { static USED: Cell<u64> = const { Cell::new(0) }; }
fn used() -> u64 {
    USED.with(|u| u.replace(0))
}
impl<const B: u8> Default for Tag<B> {
    fn default() -> Self {
        Tag(B as u32 * 8)
    }
}
impl<const B: u8> Clone for Tag<B> {
    fn clone(&self) -> Self {
        Tag(self.0)
    }
}
pub struct TagH(u64, u32);
impl Hasher for TagH {
    fn finish(&self) -> u64 {
        (self.0 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15u64.rotate_left(self.1 * 7)) ^ ((self.1 as u64) << 50)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0 * 257 + *x as u64
        }
    }
}
impl<const B: u8> BuildHasher for Tag<B> {
    type Hasher = TagH;
    fn build_hasher(&self) -> TagH {
        USED.with(|u| u.set(u.get() | 1 << self.0));
        TagH(0, self.0)
    }
}
fn names(u: u64) -> String {
    format!("{:?}", (0..64).filter(|k| u >> k & 1 == 1).collect::<Vec<_>>())
}
#[derive(Clone, Debug, PartialEq)]
enum Hop {
    New,
    Default,
    WithCap(usize),
    WithHasher(u32),
    WithCapHasher(usize, u32),
    FromIter(Vec<u32>),
    FromRefs(Vec<u32>),
    /// from_hashmap
    Wrap(Vec<u32>, u32),
    /// From, with a map of another builder type
    MapV(Vec<u32>, u32),
    MapR(Vec<u32>, u32),
    /// From, with a map of the same builder type
    MapVS(Vec<u32>, u32),
    MapRS(Vec<u32>, u32),
    Push(u32),
    Ext(Vec<u32>),
    ExtRef(Vec<u32>),
    /// arithmetic: form, right side, builder identity, other builder type
    Arith(u8, Vec<u32>, u32, bool),
    Union(u32, u32),
    Iterate,
    Clear,
    Reserve(usize),
    Shrink,
    Clone,
    CloneFrom(Vec<u32>, u32),
    Equal(Vec<u32>, u32),
    Common,
}
struct Hc {
    name: String,
    ops: Vec<Hop>,
}
struct Hcs {
    c: Counter<K, Tag<0>>,
    m: Mc,
    id: u32,
}
fn mk(v: &[u32]) -> Vec<K> {
    v.iter().map(|k| K(*k as u8)).collect()
}
fn tagged<const B: u8>(v: &[u32], id: u32) -> Counter<K, Tag<B>> {
    let mut c = Counter::with_hasher(Tag(id));
    v.iter().for_each(|k| c.push(K(*k as u8)));
    c
}
fn tagmap<const B: u8>(v: &[u32], id: u32) -> HashMap<K, usize, Tag<B>> {
    let mut c = HashMap::with_hasher(Tag(id));
    v.iter().for_each(|k| *c.entry(K(*k as u8)).or_insert(0) += 1);
    c
}
fn own<const B: u8>(what: &str, c: &Counter<K, Tag<B>>, id: u32, m: &Mc) -> Res {
    let g = c.hasher().0;
    ensure!(g == id, "{} has builder {}, expected {}", what, g, id);
    used();
    for k in 0..8u32 {
        ensure!(c.get(&K(k as u8)) == m.get(&k), "{}: the count of {} is {:?}, expected {:?}", what, k, c.get(&K(k as u8)), m.get(&k));
    }
    let u = used();
    ensure!(u & !(1 << id) == 0, "{}: looking up used builders {}, expected {}", what, names(u), id);
    let e = entries(what, c)?;
    ensure!(e == *m, "{} is {:?}, expected {:?}", what, e, m);
    Ok(())
}
impl Scn for Hc {
    type St = Hcs;
    fn label(&self) -> String {
        self.name.clone()
    }
    fn nops(&self) -> usize {
        self.ops.len()
    }
    fn op_str(&self, op: u16) -> String {
        format!("{:?}", self.ops[op as usize])
    }
    fn init(&self) -> Hcs {
        Hcs { c: Counter::new(), m: Mc::new(), id: 0 }
    }
    fn step(&self, st: &mut Hcs, op: u16) -> Step {
        let Hcs { c, m, id } = st;
        used();
        // builders which may be used besides that of the counter
        let mut others = 0u64;
        match &self.ops[op as usize] {
            Hop::New => (*c, *m, *id) = (Counter::new(), Mc::new(), 0),
            Hop::Default => (*c, *m, *id) = (Counter::default(), Mc::new(), 0),
            Hop::WithCap(n) => (*c, *m, *id) = (Counter::with_capacity(*n), Mc::new(), 0),
            Hop::WithHasher(i) => (*c, *m, *id) = (Counter::with_hasher(Tag(*i)), Mc::new(), *i),
            Hop::WithCapHasher(n, i) => (*c, *m, *id) = (Counter::with_capacity_and_hasher(*n, Tag(*i)), Mc::new(), *i),
            Hop::FromIter(v) => (*c, *m, *id) = (mk(v).into_iter().collect(), count(&Mc::new(), v), 0),
            Hop::FromRefs(v) => (*c, *m, *id) = (mk(v).iter().collect(), count(&Mc::new(), v), 0),
            Hop::Wrap(v, i) => {
                (*m, *id) = (count(&Mc::new(), v), *i);
                let map = tagmap(v, *i);
                used();
                *c = Counter::from_hashmap(map);
            }
            Hop::MapV(v, i) => {
                (*m, *id) = (count(&Mc::new(), v), 0);
                let map = tagmap::<1>(v, *i + 8);
                used();
                *c = Counter::from(map);
            }
            Hop::MapR(v, i) => {
                (*m, *id) = (count(&Mc::new(), v), 0);
                let map = tagmap::<1>(v, *i + 8);
                used();
                *c = Counter::from(&map);
            }
            Hop::MapVS(v, i) => {
                (*m, *id) = (count(&Mc::new(), v), 0);
                let map = tagmap::<0>(v, *i);
                used();
                *c = Counter::from(map);
                others = 1 << *i;
            }
            Hop::MapRS(v, i) => {
                (*m, *id) = (count(&Mc::new(), v), 0);
                let map = tagmap::<0>(v, *i);
                used();
                *c = Counter::from(&map);
                others = 1 << *i;
            }
            Hop::Push(k) => {
                c.push(K(*k as u8));
                *m = count(m, &[*k]);
            }
            Hop::Ext(v) => {
                c.extend(mk(v));
                *m = count(m, v);
            }
            Hop::ExtRef(v) => {
                c.extend(mk(v).iter());
                *m = count(m, v);
            }
            Hop::Arith(f, v, i, other) => {
                fn go<const B: u8>(c: &mut Counter<K, Tag<0>>, f: u8, v: &[u32], i: u32) -> Res {
                    let r = tagged::<B>(v, i);
                    let rm = count(&Mc::new(), v);
                    let byref = f % 2 == 1;
                    used();
                    match f {
                        0 => *c += r,
                        2 => *c -= r,
                        4 => *c = std::mem::take(c) + r,
                        6 => *c = std::mem::take(c) - r,
                        _ => {
                            match f {
                                1 => *c += &r,
                                3 => *c -= &r,
                                5 => *c = std::mem::take(c) + &r,
                                _ => *c = std::mem::take(c) - &r,
                            }
                            let u = used();
                            own("the right side", &r, i, &rm)?;
                            USED.with(|x| x.set(u));
                        }
                    }
                    Ok(())
                }
                if *other {
                    go::<1>(c, *f, v, *i + 8)?;
                    others = 1 << (*i + 8);
                } else {
                    go::<0>(c, *f, v, *i)?;
                    others = 1 << *i;
                }
                let r = count(&Mc::new(), v);
                *m = if matches!(f, 0 | 1 | 4 | 5) { plus(m, &r) } else { minus(m, &r) };
            }
            Hop::Clear => {
                c.clear();
                m.clear();
            }
            Hop::Reserve(n) => c.reserve(*n),
            Hop::Shrink => c.shrink_to_fit(),
            Hop::Clone => {
                let d = c.clone();
                *c = d;
            }
            Hop::CloneFrom(v, i) => {
                let r = tagged(v, *i);
                used();
                c.clone_from(&r);
                (*m, *id) = (count(&Mc::new(), v), *i);
            }
            Hop::Equal(v, i) => {
                let r = tagged::<0>(v, *i);
                used();
                let (a, b) = (*c == r, r == *c);
                let w = *m == count(&Mc::new(), v);
                ensure!(a == w && b == w, "comparing counters with builders {} and {} gives {} and {}, expected {}", id, i, a, b, w);
                others = 1 << *i;
            }
            Hop::Common => {
                let mut v: Vec<(u32, usize)> = c.most_common().into_iter().map(|(k, n)| (k.id(), n)).collect();
                v.sort();
                ensure!(v.into_iter().eq(m.iter().map(|(k, n)| (*k, *n))), "most_common");
            }
            _ => return Ok(Flow::Disabled),
        }
        let u = used();
        ensure!(u & !(1 << *id | others) == 0, "the operation used builders {}, expected {}", names(u), id);
        if m.values().any(|n| *n > 3) {
            return Ok(Flow::Disabled);
        }
        own("counter", c, *id, m)?;
        Ok(Flow::Go)
    }
    fn key(&self, st: &Hcs) -> Vec<u64> {
        let mut k = vec![st.id as u64, st.c.capacity() as u64];
        bytes(&format!("{:?}", st.m), &mut k);
        k
    }
    fn check(&self, st: &mut Hcs) -> Res {
        own("counter", &st.c, st.id, &st.m)
    }
}
struct Hd {
    name: String,
    ops: Vec<Hop>,
}
struct Hds {
    d: DisjointSet<K, Tag<0>>,
    m: Md,
    id: u32,
}
fn dtagged(v: &[u32], id: u32) -> DisjointSet<K, Tag<0>> {
    let mut c = DisjointSet::with_hasher(Tag(id));
    v.iter().for_each(|k| c.make_set(K(*k as u8)));
    c
}
fn down(what: &str, d: &mut DisjointSet<K, Tag<0>>, id: u32, m: &Md) -> Res {
    for k in 0..8u32 {
        used();
        let g = d.contains(&K(k as u8));
        let u = used();
        ensure!(u & !(1 << id) == 0 && (m.is_empty() || u == 1 << id), "{}: looking up {} used builders {}, expected {}", what, k, names(u), id);
        ensure!(g == m.contains_key(&k), "{}: contains({}) is {}", what, k, g);
        let g = d.in_union(&K(k as u8), &K(0));
        let u = used();
        ensure!(u & !(1 << id) == 0, "{}: a query used builders {}, expected {}", what, names(u), id);
        let w = m.contains_key(&k) && m.get(&k) == m.get(&0);
        ensure!(g == w, "{}: in_union({}, 0) is {}, expected {}", what, k, g, w);
    }
    let p = partition(what, d)?;
    ensure!(p == *m, "{} is {:?}, expected {:?}", what, p, m);
    Ok(())
}
impl Scn for Hd {
    type St = Hds;
    fn label(&self) -> String {
        self.name.clone()
    }
    fn nops(&self) -> usize {
        self.ops.len()
    }
    fn op_str(&self, op: u16) -> String {
        format!("{:?}", self.ops[op as usize])
    }
    fn init(&self) -> Hds {
        Hds { d: DisjointSet::new(), m: Md::new(), id: 0 }
    }
    fn step(&self, st: &mut Hds, op: u16) -> Step {
        let Hds { d, m, id } = st;
        used();
        match &self.ops[op as usize] {
            Hop::New => (*d, *m, *id) = (DisjointSet::new(), Md::new(), 0),
            Hop::Default => (*d, *m, *id) = (DisjointSet::default(), Md::new(), 0),
            Hop::WithCap(n) => (*d, *m, *id) = (DisjointSet::with_capacity(*n), Md::new(), 0),
            Hop::WithHasher(i) => (*d, *m, *id) = (DisjointSet::with_hasher(Tag(*i)), Md::new(), *i),
            Hop::WithCapHasher(n, i) => (*d, *m, *id) = (DisjointSet::with_capacity_and_hasher(*n, Tag(*i)), Md::new(), *i),
            Hop::FromIter(v) => (*d, *m, *id) = (mk(v).into_iter().collect(), mmake(&Md::new(), v), 0),
            Hop::FromRefs(v) => (*d, *m, *id) = (mk(v).iter().collect(), mmake(&Md::new(), v), 0),
            Hop::Push(k) => {
                d.make_set(K(*k as u8));
                *m = mmake(m, &[*k]);
            }
            Hop::Union(a, b) => {
                d.union(K(*a as u8), K(*b as u8));
                *m = munion(m, *a, *b);
            }
            Hop::Ext(v) => {
                d.extend(mk(v));
                *m = mmake(m, v);
            }
            Hop::ExtRef(v) => {
                d.extend(mk(v).iter());
                *m = mmake(m, v);
            }
            Hop::Iterate => {
                let n: usize = d.into_iter().map(|g| g.count()).sum();
                ensure!(n == m.len(), "iteration shows {} elements, expected {}", n, m.len());
            }
            Hop::Clear => {
                d.clear();
                m.clear();
            }
            Hop::Reserve(n) => d.reserve(*n),
            Hop::Clone => {
                let e = d.clone();
                *d = e;
            }
            Hop::CloneFrom(v, i) => {
                let r = dtagged(v, *i);
                used();
                d.clone_from(&r);
                (*m, *id) = (mmake(&Md::new(), v), *i);
            }
            _ => return Ok(Flow::Disabled),
        }
        let u = used();
        ensure!(u & !(1 << *id) == 0, "the operation used builders {}, expected {}", names(u), id);
        down("set", d, *id, m)?;
        Ok(Flow::Go)
    }
    fn key(&self, st: &Hds) -> Vec<u64> {
        let mut k = vec![st.id as u64];
        bytes(&format!("{:?}", st.d), &mut k);
        k
    }
    fn check(&self, st: &mut Hds) -> Res {
        down("set", &mut st.d, st.id, &st.m)
    }
}
fn builder_ops(counter: bool) -> Vec<Hop> {
    let mut o = vec![Hop::New, Hop::Default];
    for n in [0, 1, 4] {
        o.push(Hop::WithCap(n));
        for i in [0, 1, 2] {
            o.push(Hop::WithCapHasher(n, i));
        }
    }
    for i in [0, 1, 2] {
        o.push(Hop::WithHasher(i));
    }
    for v in [vec![], vec![0, 1, 0], vec![3, 2, 1, 0, 4]] {
        o.extend([Hop::FromIter(v.clone()), Hop::FromRefs(v.clone()), Hop::Ext(v.clone()), Hop::ExtRef(v.clone())]);
        for i in [0, 1, 2] {
            o.push(Hop::CloneFrom(v.clone(), i));
            if counter {
                o.extend([Hop::Wrap(v.clone(), i), Hop::MapV(v.clone(), i), Hop::MapR(v.clone(), i), Hop::MapVS(v.clone(), i), Hop::MapRS(v.clone(), i), Hop::Equal(v.clone(), i)]);
                if i > 0 {
                    for f in 0..8 {
                        o.extend([Hop::Arith(f, v.clone(), i, false), Hop::Arith(f, v.clone(), i, true)]);
                    }
                }
            }
        }
    }
    for k in 0..if counter { 3 } else { 4 } {
        o.push(Hop::Push(k));
    }
    if counter {
        o.extend([Hop::Shrink, Hop::Common]);
    } else {
        for a in 0..3 {
            for b in 0..3 {
                o.push(Hop::Union(a, b));
            }
        }
        o.push(Hop::Iterate);
    }
    o.extend([Hop::Clear, Hop::Reserve(1), Hop::Reserve(5), Hop::Clone]);
    o
}

fn jobs(prop: &str, quick: bool) -> Vec<Box<dyn Job>> {
    let mut j: Vec<Box<dyn Job>> = vec![];
    match prop {
        #[cfg(feature = "C32")]
        "C32" => {
            let tables = if quick { vec![Table([0, 1, 2, 3, 4, 5, 6, 7]), Table([0; 8]), Table([0, 0, 1, 1, 2, 2, 3, 3])] } else { few_tables() };
            let cap = Mode::Bfs { max_states: if quick { 60_000 } else { 2_000_000 } };
            let (max, rich, n) = if quick { (2, false, 3) } else { (3, true, 4) };
            let rhs = Table([7, 6, 5, 4, 3, 2, 1, 0]);
            for t in tables {
                // the longest chain of equal hashes
                let e = (0..5).map(|k| (0..5).filter(|x| t.0[*x] == t.0[k]).count() as u32).max().unwrap();
                j.push(explore(Cf::<Pk> { start: vec![], name: format!("counter, tracked keys, hashes {:?}", t.0), table: t, rhs_table: t, ops: counter_ops(false, e, rich), universe: 5, max, by_ref: None }, cap));
                j.push(explore(Cf::<Ck> { start: vec![], name: format!("counter, copied keys, hashes {:?}", t.0), table: t, rhs_table: rhs, ops: counter_ops(true, e, rich), universe: 5, max, by_ref: Some(cext::<Ck>) }, cap));
                j.push(explore(Df::<Pk> { start: Default::default(), name: format!("disjoint set, tracked keys, hashes {:?}", t.0), table: t, ops: dset_ops(n, false, e), universe: 5, by_ref: None }, cap));
                j.push(explore(Df::<Ck> { start: Default::default(), name: format!("disjoint set, copied keys, hashes {:?}", t.0), table: t, ops: dset_ops(n, true, e), universe: 5, by_ref: Some(dext::<Ck>) }, cap));
            }
            // many elements
            let t = Table([0, 1, 2, 3, 4, 5, 6, 7]);
            for n in if quick { vec![20u32, 130, 300] } else { vec![20, 33, 65, 130, 300, 520, 1100] } {
                for (k, keys) in [vec![], (0..n / 2).collect::<Vec<u32>>(), (0..2 * n).collect()].into_iter().enumerate() {
                    let pairs: Vec<(u32, u32)> = keys.iter().map(|k| (*k, *k / 3 + k % 2)).collect();
                    let m = pairs.iter().fold(Md::new(), |m, (a, b)| munion(&m, *a, *b));
                    let united = (pairs, m);
                    j.push(explore(Cf::<Pk> { start: keys.clone(), name: format!("counter, tracked keys, {} at once, start {}", n, k), table: t, rhs_table: t, ops: many_counter_ops(n, false), universe: 12, max: 10, by_ref: None }, Mode::Words { depth: 1 }));
                    j.push(explore(Cf::<Ck> { start: keys.clone(), name: format!("counter, copied keys, {} at once, start {}", n, k), table: t, rhs_table: t, ops: many_counter_ops(n, true), universe: 12, max: 10, by_ref: Some(cext::<Ck>) }, Mode::Words { depth: 1 }));
                    j.push(explore(Df::<Pk> { start: united.clone(), name: format!("disjoint set, tracked keys, {} at once, start {}", n, k), table: t, ops: many_dset_ops(n, false), universe: 12, by_ref: None }, Mode::Words { depth: 1 }));
                    j.push(explore(Df::<Ck> { start: united, name: format!("disjoint set, copied keys, {} at once, start {}", n, k), table: t, ops: many_dset_ops(n, true), universe: 12, by_ref: Some(dext::<Ck>) }, Mode::Words { depth: 1 }));
                }
            }
        }
        #[cfg(feature = "C33")]
        "C33" => {
            let cap = Mode::Bfs { max_states: if quick { 60_000 } else { 2_000_000 } };
            j.push(explore(Hc { name: "builders of counters".into(), ops: builder_ops(true) }, cap));
            j.push(explore(Hd { name: "builders of disjoint sets".into(), ops: builder_ops(false) }, cap));
            j.push(explore(Hc { name: "builders of counters, words".into(), ops: builder_ops(true) }, Mode::Words { depth: if quick { 2 } else { 3 } }));
            j.push(explore(Hd { name: "builders of disjoint sets, words".into(), ops: builder_ops(false) }, Mode::Words { depth: if quick { 3 } else { 4 } }));
        }
        _ => {}
    }
    j
}
fn main() {
    main_with(jobs)
}
