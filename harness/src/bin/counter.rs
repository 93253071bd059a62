//! Counter: C11..C15, and the capacity promises of counters and disjoint sets: C16.
#![allow(dead_code, unused_macros, unused_imports, unused_variables)]
use advanced_collections::counter::{Counter, FastCounter};
use advanced_collections::disjoint_set::DisjointSet;
use fnv::FnvBuildHasher;
use mc::alloc;
use mc::hash::*;
use mc::*;
use std::collections::hash_map::RandomState;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash};
use std::iter::FromIterator;
use std::marker::PhantomData;

#[cfg(not(miri))]
#[global_allocator]
static A: alloc::Mon = alloc::Mon;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {{ mc::obs(); if !($c) { return Err(format!($($a)*)); } }};
}

use mc::keys::*;
type M = BTreeMap<u32, usize>;

/// The counter holds exactly the entries of the model, through every read-only view.
fn same<T: Key, S: BuildHasher>(what: &str, c: &Counter<T, S>, m: &M, universe: u32) -> Res {
    ensure!(c.len() == m.len(), "{}: {} entries, expected {:?}; it has {:?}", what, c.len(), m, show(c));
    ensure!(c.is_empty() == m.is_empty(), "{}: is_empty() is {}", what, c.is_empty());
    let mut n = 0;
    for (k, v) in c {
        ensure!(m.get(&k.id()) == Some(v), "{}: iteration shows {:?} = {}, expected {:?}", what, k, v, m.get(&k.id()));
        n += 1;
    }
    ensure!(n == m.len(), "{}: iteration shows {} entries, expected {}", what, n, m.len());
    for k in 0..universe {
        let g = c.get(&T::mk(k)).copied();
        ensure!(g == m.get(&k).copied(), "{}: count of {} is {:?}, expected {:?}", what, k, g, m.get(&k));
    }
    Ok(())
}
fn show<T: Key, S: BuildHasher>(c: &Counter<T, S>) -> M {
    c.iter().map(|(k, v)| (k.id(), *v)).collect()
}
fn madd(m: &mut M, k: u32, n: usize) {
    *m.entry(k).or_insert(0) += n
}
fn msub(m: &mut M, r: &M) {
    for (k, n) in r {
        if let Some(v) = m.get_mut(k) {
            if *n >= *v {
                m.remove(k);
            } else {
                *v -= n
            }
        }
    }
}
fn mk_map<T: Key, S: Hs>(m: &M, rev: bool) -> HashMap<T, usize, S> {
    let mut h = HashMap::with_hasher(S::mk());
    let mut e: Vec<_> = m.iter().collect();
    if rev {
        e.reverse()
    }
    for (k, v) in e {
        h.insert(T::mk(*k), *v);
    }
    h
}
fn mk<T: Key, S: Hs>(m: &M, rev: bool) -> Counter<T, S> {
    Counter::from_hashmap(mk_map(m, rev))
}

// ---- history scenario -----------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
enum Op {
    New,
    Default,
    WithCap(usize),
    WithHasher,
    WithCapHasher(usize),
    From(Vec<u32>, Hint),
    FromRef(Vec<u32>, Hint),
    Push(u32),
    Ext(Vec<u32>, Hint),
    ExtRef(Vec<u32>, Hint),
    Add(u8, M, bool),
    Sub(u8, M, bool),
    SelfAdd,
    SelfSub,
    Insert(u32, usize),
    Remove(u32),
    Bump,
    BumpFor,
    Zero,
    Retain,
    Clear,
    CloneAway,
    CloneBack,
    CloneFrom,
    CloneUp,
    ViaMap(u8),
    Rebuild,
    MostCommon(bool),
    Reserve,
}
fn op_name(o: &Op) -> String {
    match o {
        Op::Add(f, m, x) => format!("{} {:?}{}", ["+= ", "+= &", "+ ", "+ &"][*f as usize], m, if *x { " (other hasher)" } else { "" }),
        Op::Sub(f, m, x) => format!("{} {:?}{}", ["-= ", "-= &", "- ", "- &"][*f as usize], m, if *x { " (other hasher)" } else { "" }),
        _ => format!("{:?}", o),
    }
}
struct St<T: Key, S: Hs> {
    c: Option<Counter<T, S>>,
    m: M,
    side: Option<(Counter<T, S>, M)>,
}
struct Hist<T: Key, S: Hs, S2> {
    name: String,
    table: Table,
    ops: Vec<Op>,
    extra: Vec<Op>,
    universe: u32,
    by_ref: Option<fn(&mut dyn std::any::Any, &[u32], Hint)>,
    eq: Option<fn(&Counter<T, S>, &Counter<T, S>) -> (bool, bool)>,
    _p: PhantomData<fn() -> (T, S, S2)>,
}
fn add_form<T: Key, S: Hs, R: Hs>(a: Counter<T, S>, r: &M, form: u8, rev: bool) -> Result<Counter<T, S>, String> {
    let mut a = a;
    let b: Counter<T, R> = mk(r, rev);
    Ok(match form {
        0 => {
            a += b;
            a
        }
        1 => {
            a += &b;
            same("right side of +=", &b, r, 0)?;
            a
        }
        2 => a + b,
        _ => {
            let x = a + &b;
            same("right side of +", &b, r, 0)?;
            x
        }
    })
}
fn sub_form<T: Key, S: Hs, R: Hs>(a: Counter<T, S>, r: &M, form: u8, rev: bool) -> Result<Counter<T, S>, String> {
    let mut a = a;
    let b: Counter<T, R> = mk(r, rev);
    Ok(match form {
        0 => {
            a -= b;
            a
        }
        1 => {
            a -= &b;
            same("right side of -=", &b, r, 0)?;
            a
        }
        2 => a - b,
        _ => {
            let x = a - &b;
            same("right side of -", &b, r, 0)?;
            x
        }
    })
}
fn listed<T: Key>(v: &[(T, usize)], m: &M) -> Res {
    ensure!(v.len() == m.len(), "most common lists {} entries of {:?}", v.len(), m);
    let mut seen: M = M::new();
    for (k, n) in v {
        ensure!(m.get(&k.id()) == Some(n), "most common lists {:?} with count {}, expected {:?}", k, n, m.get(&k.id()));
        ensure!(seen.insert(k.id(), *n).is_none(), "most common lists {:?} twice", k);
    }
    for w in v.windows(2) {
        ensure!(w[0].1 >= w[1].1, "most common lists count {} before {}", w[0].1, w[1].1);
    }
    Ok(())
}
impl<T: Key, S: Hs, S2: Hs> Hist<T, S, S2> {
    fn new(name: &str, table: Table, ops: Vec<Op>, extra: Vec<Op>) -> Self {
        Hist { name: format!("{} ({}, {} and {}{})", name, std::any::type_name::<T>(), S::NAME, S2::NAME, if S::NAME == "Table" { format!(" {:?}", table.0) } else { String::new() }), table, ops, extra, universe: 8, by_ref: None, eq: None, _p: PhantomData }
    }
    fn op(&self, i: u16) -> &Op {
        let i = i as usize;
        if i < self.ops.len() {
            &self.ops[i]
        } else {
            &self.extra[i - self.ops.len()]
        }
    }
}
fn ks<T: Key>(v: &[u32]) -> Vec<T> {
    v.iter().map(|k| T::mk(*k)).collect()
}
impl<T: Key, S: Hs, S2: Hs> Scn for Hist<T, S, S2> {
    type St = St<T, S>;
    fn label(&self) -> String {
        self.name.clone()
    }
    fn nops(&self) -> usize {
        self.ops.len()
    }
    fn op_str(&self, op: u16) -> String {
        op_name(self.op(op))
    }
    fn roots(&self) -> Vec<Vec<u16>> {
        if self.extra.is_empty() {
            vec![vec![]]
        } else {
            (0..self.extra.len()).map(|i| vec![(self.ops.len() + i) as u16]).collect()
        }
    }
    fn init(&self) -> Self::St {
        set_default(self.table);
        St { c: Some(Counter::with_hasher(S::mk())), m: M::new(), side: None }
    }
    fn step(&self, st: &mut Self::St, op: u16) -> Step {
        let op = self.op(op);
        match op {
            Op::New | Op::Default | Op::WithCap(_) | Op::WithHasher | Op::WithCapHasher(_) => {
                st.m.clear();
                st.c = Some(match op {
                    Op::New => Counter::new(),
                    Op::Default => Default::default(),
                    Op::WithCap(n) => Counter::with_capacity(*n),
                    Op::WithHasher => Counter::with_hasher(S::mk()),
                    Op::WithCapHasher(n) => Counter::with_capacity_and_hasher(*n, S::mk()),
                    _ => unreachable!(),
                });
            }
            Op::From(v, h) => {
                st.c = Some(Counter::from_iter(Feed(ks::<T>(v).into_iter(), *h)));
                st.m.clear();
                v.iter().for_each(|k| madd(&mut st.m, *k, 1));
            }
            Op::FromRef(v, h) => {
                let w = ks::<T>(v);
                st.c = Some(Counter::from_iter(Feed(w.iter(), *h)));
                st.m.clear();
                v.iter().for_each(|k| madd(&mut st.m, *k, 1));
            }
            Op::Push(k) => {
                if st.m.get(k) == Some(&usize::MAX) {
                    return Ok(Flow::Disabled);
                }
                st.c.as_mut().unwrap().push(T::mk(*k));
                madd(&mut st.m, *k, 1);
            }
            Op::Ext(v, h) => {
                let mut m = st.m.clone();
                for k in v {
                    match m.get(k) {
                        Some(&usize::MAX) => return Ok(Flow::Disabled),
                        _ => madd(&mut m, *k, 1),
                    }
                }
                st.m = m;
                st.c.as_mut().unwrap().extend(Feed(ks::<T>(v).into_iter(), *h));
            }
            Op::ExtRef(v, h) => {
                let f = match self.by_ref {
                    Some(f) => f,
                    None => return Ok(Flow::Disabled),
                };
                let mut m = st.m.clone();
                for k in v {
                    match m.get(k) {
                        Some(&usize::MAX) => return Ok(Flow::Disabled),
                        _ => madd(&mut m, *k, 1),
                    }
                }
                st.m = m;
                f(st.c.as_mut().unwrap(), v, *h);
            }
            Op::Add(f, r, other) => {
                for (k, n) in r {
                    if st.m.get(k).unwrap_or(&0).checked_add(*n).is_none() {
                        return Ok(Flow::Disabled);
                    }
                }
                let a = st.c.take().unwrap();
                st.c = Some(if *other { add_form::<T, S, S2>(a, r, *f, false)? } else { add_form::<T, S, S>(a, r, *f, true)? });
                r.iter().for_each(|(k, n)| madd(&mut st.m, *k, *n));
            }
            Op::Sub(f, r, other) => {
                let a = st.c.take().unwrap();
                st.c = Some(if *other { sub_form::<T, S, S2>(a, r, *f, false)? } else { sub_form::<T, S, S>(a, r, *f, true)? });
                msub(&mut st.m, r);
            }
            Op::SelfAdd => {
                if st.m.values().any(|v| v.checked_mul(2).is_none()) {
                    return Ok(Flow::Disabled);
                }
                let c = st.c.as_mut().unwrap();
                let d = c.clone();
                *c += &d;
                st.m.values_mut().for_each(|v| *v *= 2);
            }
            Op::SelfSub => {
                let c = st.c.as_mut().unwrap();
                let d = c.clone();
                *c -= &d;
                st.m.clear();
            }
            Op::Insert(k, n) => {
                st.c.as_mut().unwrap().insert(T::mk(*k), *n);
                st.m.insert(*k, *n);
            }
            Op::Remove(k) => {
                let g = st.c.as_mut().unwrap().remove(&T::mk(*k));
                let w = st.m.remove(k);
                ensure!(g == w, "remove({}) gives {:?}, expected {:?}", k, g, w);
            }
            Op::Bump | Op::BumpFor => {
                if st.m.values().any(|v| *v == usize::MAX) {
                    return Ok(Flow::Disabled);
                }
                let c = st.c.as_mut().unwrap();
                let mut n = 0;
                if *op == Op::Bump {
                    c.iter_mut().for_each(|(_, v)| {
                        *v += 1;
                        n += 1
                    });
                } else {
                    for (k, v) in c {
                        ensure!(st.m.get(&k.id()) == Some(v), "mutable iteration shows {:?} = {}", k, v);
                        *v += 1;
                        n += 1;
                    }
                }
                ensure!(n == st.m.len(), "mutable iteration shows {} entries, expected {}", n, st.m.len());
                st.m.values_mut().for_each(|v| *v += 1);
            }
            Op::Zero => {
                for (_, v) in st.c.as_mut().unwrap() {
                    *v = 0
                }
                st.m.values_mut().for_each(|v| *v = 0);
            }
            Op::Retain => {
                st.c.as_mut().unwrap().retain(|_, v| *v != 1);
                st.m.retain(|_, v| *v != 1);
            }
            Op::Clear => {
                st.c.as_mut().unwrap().clear();
                st.m.clear();
            }
            Op::Reserve => st.c.as_mut().unwrap().reserve(20),
            Op::CloneAway => {
                // keep a copy, continue with the original
                st.side = Some((st.c.as_ref().unwrap().clone(), st.m.clone()));
            }
            Op::CloneBack => match st.side.take() {
                // continue with the copy, keep the original
                None => return Ok(Flow::Disabled),
                Some((c, m)) => {
                    let c = st.c.replace(c).unwrap();
                    let m = std::mem::replace(&mut st.m, m);
                    st.side = Some((c, m));
                }
            },
            // overwrite the other one with a copy of this one, and the other way round
            Op::CloneFrom => match st.side.as_mut() {
                None => return Ok(Flow::Disabled),
                Some((c, m)) => {
                    c.clone_from(st.c.as_ref().unwrap());
                    m.clone_from(&st.m);
                }
            },
            Op::CloneUp => match st.side.as_ref() {
                None => return Ok(Flow::Disabled),
                Some((c, m)) => {
                    st.c.as_mut().unwrap().clone_from(c);
                    st.m.clone_from(m);
                }
            },
            Op::ViaMap(kind) => {
                let c = st.c.take().unwrap();
                st.c = Some(match kind {
                    0 => Counter::from_hashmap(mk_map::<T, S>(&st.m, true)),
                    1 => Counter::from(mk_map::<T, S2>(&st.m, false)),
                    2 => {
                        let m = mk_map::<T, S2>(&st.m, true);
                        let r = Counter::from(&m);
                        let back: M = m.iter().map(|(k, v)| (k.id(), *v)).collect();
                        ensure!(back == st.m, "conversion changed its source");
                        r
                    }
                    3 => {
                        let h: HashMap<T, usize, S> = (*c).clone();
                        Counter::from(h)
                    }
                    4 => Counter::from(&*c),
                    _ => {
                        let h: HashMap<T, usize, S2> = c.into_iter().collect();
                        Counter::from(h)
                    }
                });
            }
            Op::Rebuild => {
                let c = st.c.take().unwrap();
                let it = c.into_iter();
                let (a, b) = it.size_hint();
                let mut h = HashMap::with_hasher(S::mk());
                let mut n = 0;
                for (k, v) in it {
                    ensure!(st.m.get(&k.id()) == Some(&v), "owning iteration shows {:?} = {}", k, v);
                    h.insert(k, v);
                    n += 1;
                }
                ensure!(n == st.m.len() && a <= n && b.map_or(true, |b| b >= n), "owning iteration shows {} entries with size_hint {:?}, expected {}", n, (a, b), st.m.len());
                st.c = Some(Counter::from_hashmap(h));
            }
            Op::MostCommon(by_ref) => {
                if *by_ref {
                    let v = st.c.as_ref().unwrap().most_common();
                    listed(&v, &st.m)?;
                } else {
                    let v = st.c.take().unwrap().into_most_common();
                    listed(&v, &st.m)?;
                    st.c = Some(mk(&st.m, false));
                }
            }
        }
        Ok(Flow::Go)
    }
    fn key(&self, st: &Self::St) -> Vec<u64> {
        // content and layout: entries in iteration order, and the capacity
        let c = st.c.as_ref().unwrap();
        let mut k = vec![c.capacity() as u64];
        for (a, b) in c.iter() {
            k.push(a.id() as u64);
            k.push(*b as u64);
        }
        if let Some((c, _)) = &st.side {
            k.push(u64::MAX);
            for (a, b) in c.iter() {
                k.push(a.id() as u64);
                k.push(*b as u64);
            }
        }
        k
    }
    fn check(&self, st: &mut Self::St) -> Res {
        same("counter", st.c.as_ref().unwrap(), &st.m, self.universe)?;
        if let Some((c, m)) = &st.side {
            same("other copy", c, m, self.universe)?;
            let eq = st.m == *m;
            let c0 = st.c.as_ref().unwrap();
            if let Some(f) = self.eq {
                ensure!(f(c0, c) == (eq, !eq) && f(c, c0) == (eq, !eq), "(==, !=) of {:?} and {:?} are {:?}", st.m, m, f(c0, c));
            }
        }
        Ok(())
    }
    fn end(&self, st: Self::St) -> Res {
        drop(st);
        ensure!(tok::live() == 0, "{} keys are alive after the counter was dropped", tok::live());
        Ok(())
    }
}
fn eq_ne<T: Key, S: Hs + PartialEq>(a: &Counter<T, S>, b: &Counter<T, S>) -> (bool, bool) {
    (a == b, a != b)
}
fn ext_ref<T: Key + Copy, S: Hs>(c: &mut dyn std::any::Any, v: &[u32], h: Hint) {
    let c = c.downcast_mut::<Counter<T, S>>().unwrap();
    let w = ks::<T>(v);
    c.extend(Feed(w.iter(), h));
}

fn vecs(dom: &[Option<usize>], keys: usize) -> Vec<M> {
    let mut out = vec![M::new()];
    for k in 0..keys {
        let mut next = vec![];
        for m in &out {
            for d in dom {
                let mut m = m.clone();
                if let Some(n) = d {
                    m.insert(k as u32, *n);
                }
                next.push(m);
            }
        }
        out = next;
    }
    out
}
fn mm(v: &[(u32, usize)]) -> M {
    v.iter().copied().collect()
}
fn words(keys: u32, len: usize) -> Vec<Vec<u32>> {
    let mut v: Vec<Vec<u32>> = vec![vec![]];
    let mut k = 0;
    while k < v.len() {
        if v[k].len() < len {
            for a in 0..keys {
                let mut w = v[k].clone();
                w.push(a);
                v.push(w);
            }
        }
        k += 1;
    }
    v
}

// ---- exhaustive pairs -----------------------------------------------------------------------------
fn pairs<T: Key, S: Hs, R: Hs>(name: &str, sub: bool, dom: &'static [Option<usize>], keys: usize, tables: Vec<Table>) -> Box<dyn Job> {
    let vs = vecs(dom, keys);
    let (vs2, tables2) = (vs.clone(), tables.clone());
    let n = vs.len();
    cases(
        format!("{}: all pairs of counters with {} keys, all forms ({}, {} and {}, {} hash tables)", name, keys, std::any::type_name::<T>(), S::NAME, R::NAME, tables.len()),
        n * n,
        move |i| format!("{:?} {} {:?}", vs2[i / n], if sub { "-" } else { "+" }, vs2[i % n]),
        move |i| {
            let (a, b) = (&vs[i / n], &vs[i % n]);
            let mut want = a.clone();
            if sub {
                msub(&mut want, b);
            } else {
                for (k, v) in b {
                    if want.get(k).unwrap_or(&0).checked_add(*v).is_none() {
                        return Ok(());
                    }
                    madd(&mut want, *k, *v);
                }
            }
            for t in &tables2 {
                set_default(*t);
                for form in 0..4u8 {
                    let rev = form % 2 == 1;
                    let x: Counter<T, S> = mk(a, rev);
                    let got = if sub { sub_form::<T, S, R>(x, b, form, !rev)? } else { add_form::<T, S, R>(x, b, form, !rev)? };
                    same(&format!("form {} with hash table {:?}", form, t.0), &got, &want, keys as u32 + 1)?;
                }
            }
            Ok(())
        },
    )
}
/// Larger counters: sizes, overlaps and count patterns.
fn big_pairs<S: Hs, R: Hs>(name: &str, sub: bool, sizes: Vec<u32>, larger: &[u32]) -> Box<dyn Job> {
    let mut cs = vec![];
    for &a in &sizes {
        for &b in &sizes {
            for off in [0, a / 2, a] {
                for pat in 0..4 {
                    cs.push((a, b, off, pat));
                }
            }
        }
    }
    for &n in larger {
        for (a, b) in [(n, n), (n, n / 2), (n / 2, n), (n, 1), (1, n), (0, n), (n, 0), (n, n + 1), (n + 1, n), (n, 10), (10, n)] {
            for off in [0, a / 2, a] {
                cs.push((a, b, off, 1 + (a + off) % 3));
            }
        }
    }
    let c2 = cs.clone();
    cases(
        format!("{}: large counters ({} and {})", name, S::NAME, R::NAME),
        cs.len(),
        move |i| format!("(left size, right size, offset of right keys, count pattern) = {:?}", c2[i]),
        move |i| {
            set_default(Table([0, 1, 2, 3, 4, 5, 6, 7]));
            let (na, nb, off, pat) = cs[i];
            let val = |k: u32| match pat {
                0 => 1,
                1 => k as usize % 3,
                2 => k as usize + 1,
                _ => (1usize << 32) + k as usize,
            };
            let a: M = (0..na).map(|k| (k, val(k))).collect();
            let b: M = (off..off + nb).map(|k| (k, val(k / 2 + off % 2))).collect();
            let mut want = a.clone();
            if sub {
                msub(&mut want, &b)
            } else {
                b.iter().for_each(|(k, v)| madd(&mut want, *k, *v))
            }
            for form in 0..4 {
                let x: Counter<u32, S> = mk(&a, false);
                let got = if sub { sub_form::<u32, S, R>(x, &b, form, false)? } else { add_form::<u32, S, R>(x, &b, form, false)? };
                same(&format!("form {}", form), &got, &want, na.max(off + nb) + 2)?;
            }
            Ok(())
        },
    )
}

const D_ADD: &[Option<usize>] = &[None, Some(0), Some(1), Some(2), Some(1 << 32), Some(1 << 63), Some(usize::MAX)];
const D_SUB: &[Option<usize>] = &[None, Some(0), Some(1), Some(2), Some(3), Some((1 << 32) + 1), Some(usize::MAX)];
const D_SMALL: &[Option<usize>] = &[None, Some(0), Some(1), Some(2), Some(usize::MAX)];
const D_MC: &[Option<usize>] = &[None, Some(0), Some(1), Some(2), Some(u32::MAX as usize), Some((1 << 32) + 1), Some(1 << 63), Some(usize::MAX - 1), Some(usize::MAX)];

/// Sizes that are only combined with themselves, their halves and a few small ones.
fn larger(quick: bool) -> &'static [u32] {
    if quick {
        &[449, 501, 513, 1001, 1025, 2049, 4097, 10_001, 65_537]
    } else {
        &[300, 449, 500, 501, 512, 513, 897, 1000, 1001, 1023, 1025, 1793, 2049, 4096, 4097, 5001, 8193, 10_001, 20_001, 32_769, 50_001, 65_536, 65_537, 100_001, 131_073, 300_000]
    }
}
fn sizes(quick: bool) -> Vec<u32> {
    if quick {
        vec![0, 1, 2, 3, 4, 7, 8, 14, 15, 16, 17, 28, 29, 31, 32, 33, 56, 57, 64, 65, 112, 113, 128, 256]
    } else {
        vec![0, 1, 2, 3, 4, 6, 7, 8, 13, 14, 15, 16, 17, 27, 28, 29, 31, 32, 33, 56, 57, 63, 64, 65, 112, 113, 127, 128, 129, 255, 256, 257, 448, 449, 1024, 1025, 2000]
    }
}

fn jobs(prop: &str, quick: bool) -> Vec<Box<dyn Job>> {
    let mut js: Vec<Box<dyn Job>> = vec![];
    let few = few_tables();
    match prop {
        #[cfg(feature = "C11")]
        "C11" => {
            let start = |long: bool| {
                let mut e = vec![Op::New, Op::Default, Op::WithHasher];
                for n in [0, 1, 2, 5] {
                    e.push(Op::WithCap(n));
                    e.push(Op::WithCapHasher(n));
                }
                for w in words(3, if long { 4 } else { 2 }) {
                    for h in HINTS {
                        e.push(Op::From(w.clone(), h));
                        e.push(Op::FromRef(w.clone(), h));
                    }
                }
                e
            };
            let alpha = |by_ref: bool| {
                let mut o = vec![Op::Push(0), Op::Push(1), Op::Push(2)];
                for w in [vec![], vec![0], vec![1, 1], vec![2, 0], vec![0, 1, 2]] {
                    for h in HINTS {
                        if (w.len() > 1 || h == Hint::Unknown) && (!matches!(h, Hint::Over | Hint::Huge) || w.len() == 2) {
                            o.push(Op::Ext(w.clone(), h));
                            if by_ref {
                                o.push(Op::ExtRef(w.clone(), h));
                            }
                        }
                    }
                }
                o
            };
            for (i, t) in all_tables(3, 3).into_iter().enumerate() {
                let mut s = Hist::<K, Table, Table>::new("counting, all histories", t, alpha(true), start(false));
                s.by_ref = Some(ext_ref::<K, Table>);
                js.push(explore(s, Mode::Words { depth: if quick { 2 } else { 3 } }));
                let mut s = Hist::<K, Table, Table>::new("counting, all histories from empty", t, alpha(true), vec![Op::New, Op::WithCap(2)]);
                s.by_ref = Some(ext_ref::<K, Table>);
                js.push(explore(s, Mode::Words { depth: if quick { 3 + (i % 9 == 0) as usize } else { 5 } }));
            }
            for t in few {
                let mut s = Hist::<K, Table, Table>::new("counting, long sources", t, vec![Op::Push(0), Op::Push(3), Op::ExtRef(vec![3, 1], Hint::Exact)], start(true));
                s.by_ref = Some(ext_ref::<K, Table>);
                js.push(explore(s, Mode::Words { depth: 1 }));
                js.push(explore(Hist::<K, Table, Table>::new("counting, single additions", t, (0..4).map(Op::Push).collect(), vec![Op::New]), Mode::Words { depth: if quick { 6 } else { 8 } }));
                js.push(explore(Hist::<Tk, Table, Table>::new("counting tracked keys", t, alpha(false), start(false)), Mode::Words { depth: if quick { 2 } else { 3 } }));
            }
            js.push(explore(Hist::<String, RandomState, FnvBuildHasher>::new("counting strings", Table([0; 8]), alpha(false), start(false)), Mode::Words { depth: 1 }));
            js.push(explore(Hist::<&'static str, FnvBuildHasher, FnvBuildHasher>::new("counting strings", Table([0; 8]), alpha(false), start(false)), Mode::Words { depth: 1 }));
            // counts of every magnitude: the map interface stands for the many additions
            let mut big = vec![];
            for n in [0usize, 1, 254, 255, 256, 65534, 65535, 65536, (1 << 31) - 1, (1 << 31), u32::MAX as usize - 1, u32::MAX as usize, 1 << 32, (1 << 63) - 1, 1 << 63, usize::MAX - 2, usize::MAX - 1] {
                big.push(Op::Insert(0, n));
            }
            let mut s = Hist::<K, Table, Table>::new("counting beyond every magnitude", Table([0; 8]), alpha(true), big);
            s.by_ref = Some(ext_ref::<K, Table>);
            js.push(explore(s, Mode::Words { depth: 2 }));
            let mut s = Hist::<K, Table, Table>::new("counting, repeated histories", Table([0, 1, 2, 3, 4, 5, 6, 7]), alpha(true), vec![Op::New]);
            s.by_ref = Some(ext_ref::<K, Table>);
            js.push(explore(s, Mode::Pump { len: 2, reps: if quick { 300 } else { 1300 } }));
            let mut s = Hist::<K, Table, Table>::new("counting, very long histories", Table([0, 1, 2, 3, 4, 5, 6, 7]), vec![Op::Push(0), Op::ExtRef(vec![0, 1], Hint::Exact)], vec![Op::New]);
            s.by_ref = Some(ext_ref::<K, Table>);
            js.push(explore(s, Mode::Pump { len: if quick { 1 } else { 2 }, reps: 70_000 }));
            // many distinct keys
            let ns: Vec<u32> = if quick { (0..=70).chain([127, 128, 129, 255, 256, 257, 448, 449, 1000]).collect() } else { (0..=300).chain([448, 449, 512, 896, 897, 1000, 4096, 5000, 65535, 65536, 65537]).collect() };
            let per = 3 * 4 * 6;
            let n2 = ns.clone();
            js.push(cases(
                "counting many distinct elements",
                ns.len() * per,
                move |i| format!("{} elements, repetition {}, capacity kind {}, feeding kind {}", n2[i / per], i % 3 + 1, i / 3 % 4, i / 12 % 6),
                move |i| {
                    set_default(Table([0, 1, 2, 3, 4, 5, 6, 7]));
                    let n = ns[i / per];
                    let (rep, cap, feed) = (i % 3 + 1, i / 3 % 4, i / 12 % 6);
                    let mut v: Vec<u32> = vec![];
                    for r in 0..rep {
                        for k in 0..n {
                            if r == 0 || k as usize % rep >= r {
                                v.push(if r % 2 == 1 { n - 1 - k } else { k })
                            }
                        }
                    }
                    let mut m = M::new();
                    v.iter().for_each(|k| madd(&mut m, *k, 1));
                    let mut c: Counter<u32, Table> = match cap {
                        0 => Counter::new(),
                        1 => Counter::with_capacity(n as usize),
                        2 => Counter::with_capacity_and_hasher(1, Table::default()),
                        _ => Counter::with_capacity(2 * n as usize + 1),
                    };
                    match feed {
                        0 => v.iter().for_each(|k| c.push(*k)),
                        1 => c.extend(v.iter()),
                        2 => c.extend(v.clone()),
                        3 => {
                            let h = v.len() / 2;
                            c.extend(Feed(v[..h].iter(), Hint::Low));
                            c.extend(Feed(v[h..].to_vec().into_iter(), Hint::Unknown));
                        }
                        4 => c = Counter::from_iter(v.iter()),
                        _ => c = v.iter().copied().filter(|_| true).collect(),
                    }
                    same("counter", &c, &m, n + 2)
                },
            ));
            // runs of equal elements
            let mut ls: Vec<usize> = (1..=17).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 510, 511, 512, 513, 1000, 1023, 1024, 1025, 65534, 65535, 65536, 65537]).collect();
            if !quick {
                ls.extend([18, 19, 100, 130, 259, 1 << 15, (1 << 15) + 1, 65538, 131071, 131072, 131073, 1 << 20]);
            }
            let l2 = ls.clone();
            let per = ls.len() * 6 * 3;
            js.push(cases(
                "counting runs of equal elements",
                ls.len() * per,
                move |i| format!("run of {} after {} others, shape {}, feeding kind {}", l2[i / per], l2[i % per / 18], i / 6 % 3, i % 6),
                move |i| {
                    set_default(Table([0, 1, 2, 3, 4, 5, 6, 7]));
                    let (a, b, shape, feed) = (ls[i / per], ls[i % per / 18], i / 6 % 3, i % 6);
                    let mut v: Vec<u32> = vec![];
                    match shape {
                        // two runs; the same two and a return to the first element; alternating elements, then a run
                        0 | 1 => {
                            v.extend(std::iter::repeat(0).take(b));
                            v.extend(std::iter::repeat(1).take(a));
                            v.extend(std::iter::repeat(0).take(shape));
                        }
                        _ => {
                            v.extend((0..b as u32).map(|k| k % 2));
                            v.extend(std::iter::repeat(1).take(a));
                        }
                    }
                    let mut m = M::new();
                    v.iter().for_each(|k| madd(&mut m, *k, 1));
                    let mut c: Counter<u32, Table> = Counter::new();
                    match feed {
                        0 => v.iter().for_each(|k| c.push(*k)),
                        1 => c.extend(v.iter()),
                        2 => c.extend(v.clone()),
                        3 => {
                            let h = v.len() / 2;
                            c.extend(Feed(v[..h].iter(), Hint::Low));
                            c.extend(Feed(v[h..].to_vec().into_iter(), Hint::Unknown));
                        }
                        4 => c = Counter::from_iter(v.iter()),
                        _ => c = v.iter().copied().filter(|_| true).collect(),
                    }
                    same("counter", &c, &m, 4)
                },
            ));
        }
        #[cfg(feature = "C12")]
        "C12" => {
            js.push(pairs::<K, Table, Table>("adding", false, D_ADD, 2, all_tables(2, 3)));
            js.push(pairs::<K, Table, Table2>("adding", false, D_ADD, 2, all_tables(2, 3)));
            js.push(pairs::<K, Table, Table2>("adding", false, D_ADD, 3, if quick { few[1..5].to_vec() } else { all_tables(3, 3) }));
            js.push(pairs::<K, Table, Table>("adding", false, D_SMALL, if quick { 3 } else { 4 }, few.clone()));
            js.push(pairs::<K, Table2, Table>("adding", false, D_SMALL, if quick { 3 } else { 4 }, few.clone()));
            js.push(pairs::<K, FnvBuildHasher, RandomState>("adding", false, D_SMALL, 2, vec![few[0]]));
            js.push(pairs::<K, RandomState, FnvBuildHasher>("adding", false, D_SMALL, 2, vec![few[0]]));
            js.push(pairs::<String, RandomState, RandomState>("adding", false, D_SMALL, 2, vec![few[0]]));
            js.push(pairs::<Tk, Table, Table2>("adding", false, D_SMALL, 3, vec![few[0], few[3]]));
            js.push(big_pairs::<Table, Table>("adding", false, sizes(quick), larger(quick)));
            js.push(big_pairs::<Table, FnvBuildHasher>("adding", false, sizes(quick), larger(quick)));
            for t in few {
                let mut o = vec![Op::Push(0), Op::Push(2), Op::SelfAdd, Op::CloneAway, Op::CloneBack];
                for f in 0..4 {
                    for other in [false, true] {
                        o.push(Op::Add(f, mm(&[(0, 1), (1, 2)]), other));
                        o.push(Op::Add(f, mm(&[(2, 0), (0, 1)]), other));
                    }
                }
                o.push(Op::Sub(1, mm(&[(0, 1)]), true));
                js.push(explore(Hist::<K, Table, Table2>::new("adding, all histories", t, o.clone(), vec![Op::New, Op::WithCap(3), Op::From(vec![0, 1, 1], Hint::Exact)]), Mode::Words { depth: if quick { 4 } else { 5 } }));
                js.push(explore(Hist::<Tk, Table, Table2>::new("adding tracked keys, all histories", t, o, vec![Op::New, Op::From(vec![0, 1, 1], Hint::Exact)]), Mode::Words { depth: if quick { 3 } else { 4 } }));
            }
        }
        #[cfg(feature = "C13")]
        "C13" => {
            js.push(pairs::<K, Table, Table>("subtracting", true, D_SUB, 2, all_tables(2, 3)));
            js.push(pairs::<K, Table, Table2>("subtracting", true, D_SUB, 2, all_tables(2, 3)));
            js.push(pairs::<K, Table, Table2>("subtracting", true, D_SUB, 3, if quick { few[1..5].to_vec() } else { all_tables(3, 3) }));
            js.push(pairs::<K, Table, Table>("subtracting", true, D_SMALL, if quick { 3 } else { 4 }, few.clone()));
            js.push(pairs::<K, Table2, Table>("subtracting", true, D_SMALL, if quick { 3 } else { 4 }, few.clone()));
            js.push(pairs::<K, FnvBuildHasher, RandomState>("subtracting", true, D_SMALL, 2, vec![few[0]]));
            js.push(pairs::<K, RandomState, FnvBuildHasher>("subtracting", true, D_SMALL, 2, vec![few[0]]));
            js.push(pairs::<String, RandomState, RandomState>("subtracting", true, D_SMALL, 2, vec![few[0]]));
            js.push(pairs::<Tk, Table, Table2>("subtracting", true, D_SMALL, 3, vec![few[0], few[3]]));
            js.push(big_pairs::<Table, Table>("subtracting", true, sizes(quick), larger(quick)));
            js.push(big_pairs::<Table, FnvBuildHasher>("subtracting", true, sizes(quick), larger(quick)));
            for t in few {
                let mut o = vec![Op::Push(0), Op::Push(2), Op::SelfSub, Op::CloneAway, Op::CloneBack];
                for f in 0..4 {
                    for other in [false, true] {
                        o.push(Op::Sub(f, mm(&[(0, 1), (1, 2)]), other));
                        o.push(Op::Sub(f, mm(&[(2, 0), (0, 2), (3, 1)]), other));
                    }
                }
                o.push(Op::Add(1, mm(&[(0, 2), (1, 1)]), true));
                js.push(explore(Hist::<K, Table, Table2>::new("subtracting, all histories", t, o.clone(), vec![Op::New, Op::From(vec![0, 1, 1, 1, 2], Hint::Exact)]), Mode::Words { depth: if quick { 4 } else { 5 } }));
                js.push(explore(Hist::<Tk, Table, Table2>::new("subtracting tracked keys, all histories", t, o, vec![Op::New, Op::From(vec![0, 1, 1, 2], Hint::Exact)]), Mode::Words { depth: if quick { 3 } else { 4 } }));
            }
        }
        #[cfg(feature = "C14")]
        "C14" => {
            let tables = few.clone();
            let vs = vecs(D_MC, if quick { 5 } else { 6 });
            let vs2 = vs.clone();
            js.push(cases(
                "most common: all counters over a domain of counts",
                vs.len(),
                move |i| format!("{:?}", vs2[i]),
                move |i| {
                    for t in &tables {
                        set_default(*t);
                        let c: Counter<K, Table> = mk(&vs[i], false);
                        listed(&c.most_common(), &vs[i])?;
                        same("counter after most_common", &c, &vs[i], 6)?;
                        listed(&c.into_most_common(), &vs[i])?;
                    }
                    Ok(())
                },
            ));
            let ns: Vec<u32> = if quick { (0..=70).chain([100, 128, 200, 255, 256, 257, 512, 1000, 1024, 1025, 5000]).collect() } else { (0..=300).chain([511, 512, 513, 1000, 1023, 1024, 1025, 4096, 5000, 20000]).collect() };
            let n2 = ns.clone();
            js.push(cases(
                "most common: many elements",
                ns.len() * 12,
                move |i| format!("{} elements, count pattern {}", n2[i / 12], i % 12),
                move |i| {
                    set_default(Table([0, 1, 2, 3, 4, 5, 6, 7]));
                    let n = ns[i / 12] as usize;
                    let f = |k: usize| match i % 12 {
                        0 => k,
                        1 => n - k,
                        2 => 7,
                        3 => k % 2,
                        4 => usize::MAX - k,
                        5 => usize::MAX - (k % 3),
                        6 => (k * 7919) % 101,
                        7 => (k % 2) * usize::MAX,
                        8 => k * (usize::MAX / (n + 1)),
                        9 => (1 << 63) - 2 + k % 5,
                        10 => (1 << 32) - 2 + k % 5,
                        _ => (1usize << 32) * (k % 4) + (3 - k % 4),
                    };
                    let m: M = (0..n).map(|k| (k as u32, f(k))).collect();
                    let c: Counter<u32, Table> = mk(&m, false);
                    listed(&c.most_common(), &m)?;
                    same("counter after most_common", &c, &m, n as u32 + 1)?;
                    listed(&c.into_most_common(), &m)?;
                    let c: FastCounter<u32> = mk(&m, true);
                    listed(&c.most_common(), &m)?;
                    listed(&c.into_most_common(), &m)?;
                    let c: Counter<String> = mk(&m, true);
                    listed(&c.most_common(), &m)?;
                    listed(&c.into_most_common(), &m)
                },
            ));
            for t in few {
                let o = vec![Op::MostCommon(true), Op::MostCommon(false), Op::Push(0), Op::Push(1), Op::Ext(vec![2, 2, 1], Hint::Exact), Op::Remove(1), Op::Insert(3, usize::MAX), Op::Insert(0, 0), Op::Sub(1, mm(&[(2, 1)]), true), Op::Add(0, mm(&[(2, 5)]), false), Op::Bump];
                js.push(explore(Hist::<K, Table, Table2>::new("most common, all histories", t, o.clone(), vec![Op::New, Op::WithCap(9)]), Mode::Words { depth: if quick { 5 } else { 6 } }));
                js.push(explore(Hist::<Tk, Table, Table2>::new("most common of tracked keys, all histories", t, o, vec![Op::New]), Mode::Words { depth: if quick { 4 } else { 5 } }));
            }
        }
        #[cfg(feature = "C15")]
        "C15" => {
            let mut o = vec![Op::Push(0), Op::Push(1), Op::ExtRef(vec![1, 2], Hint::Exact), Op::Ext(vec![0, 2], Hint::Unknown), Op::Add(1, mm(&[(0, 1), (3, 2)]), true), Op::Sub(1, mm(&[(0, 1), (1, 1)]), true), Op::Sub(2, mm(&[(1, 1)]), false)];
            o.extend([Op::Insert(0, 0), Op::Insert(1, 5), Op::Insert(2, usize::MAX), Op::Remove(0), Op::Remove(1), Op::Bump, Op::BumpFor, Op::Zero, Op::Retain, Op::Clear, Op::CloneAway, Op::CloneBack, Op::CloneFrom, Op::CloneUp, Op::Rebuild, Op::MostCommon(true), Op::Reserve]);
            o.extend((0..6).map(Op::ViaMap));
            let roots = vec![Op::New, Op::From(vec![0, 1, 1], Hint::Exact)];
            for t in few.clone() {
                let mut s = Hist::<K, Table, Table2>::new("map interface, all histories", t, o.clone(), roots.clone());
                s.eq = Some(eq_ne::<K, Table>);
                s.by_ref = Some(ext_ref::<K, Table>);
                js.push(explore(s, Mode::Words { depth: if quick { 4 } else { 5 } }));
            }
            let mut s = Hist::<Tk, Table, Table2>::new("map interface, tracked keys", few[0], o.clone(), roots.clone());
            s.eq = Some(eq_ne::<Tk, Table>);
            js.push(explore(s, Mode::Words { depth: if quick { 3 } else { 4 } }));
            js.push(explore(Hist::<Tk, Table, Table2>::new("map interface, tracked keys", few[3], o.clone(), roots.clone()), Mode::Words { depth: if quick { 3 } else { 4 } }));
            js.push(explore(Hist::<String, RandomState, FnvBuildHasher>::new("map interface", few[0], o.clone(), roots.clone()), Mode::Words { depth: if quick { 3 } else { 4 } }));
            js.push(explore(Hist::<u32, FnvBuildHasher, RandomState>::new("map interface", few[0], o.clone(), roots.clone()), Mode::Words { depth: if quick { 3 } else { 4 } }));
            // equality and conversions of all pairs
            let vs = vecs(D_SMALL, 3);
            let vs2 = vs.clone();
            let n = vs.len();
            let tables = few.clone();
            js.push(cases(
                "equality of all pairs of counters",
                n * n,
                move |i| format!("{:?} == {:?}", vs2[i / n], vs2[i % n]),
                move |i| {
                    let (a, b) = (&vs[i / n], &vs[i % n]);
                    for (j, t) in tables.iter().enumerate() {
                        set_default(*t);
                        let x: Counter<K, Table> = mk(a, false);
                        set_default(tables[(j + 1) % tables.len()]);
                        let mut y: Counter<K, Table> = mk(b, true);
                        if j % 2 == 1 {
                            y.reserve(40)
                        }
                        ensure!((x == y) == (a == b) && (x != y) == (a != b), "== is {}", x == y);
                        y.clone_from(&x);
                        ensure!(x == y, "not equal after clone_from");
                        same("clone_from", &y, a, 4)?;
                        same("source of clone_from", &x, a, 4)?;
                    }
                    Ok(())
                },
            ));
            let vs = vecs(D_ADD, 3);
            let vs2 = vs.clone();
            let tables = few.clone();
            js.push(cases(
                "conversions of all counters",
                vs.len(),
                move |i| format!("{:?}", vs2[i]),
                move |i| {
                    let m = &vs[i];
                    for t in &tables {
                        set_default(*t);
                        let h: HashMap<K, usize, Table> = mk_map(m, false);
                        let h2: HashMap<K, usize, Table2> = mk_map(m, true);
                        let h3: HashMap<K, usize> = mk_map(m, true);
                        same("from_hashmap", &Counter::from_hashmap(h.clone()), m, 4)?;
                        same("From(map)", &Counter::<K, Table>::from(h.clone()), m, 4)?;
                        same("From(map with another hasher)", &Counter::<K, Table>::from(h2.clone()), m, 4)?;
                        same("From(&map)", &Counter::<K, Table>::from(&h), m, 4)?;
                        same("From(&map with another hasher)", &Counter::<K, Table>::from(&h2), m, 4)?;
                        same("From(&map with random hasher)", &Counter::<K, FnvBuildHasher>::from(&h3), m, 4)?;
                        same("From(map with random hasher)", &Counter::<K>::from(h3), m, 4)?;
                        let c: Counter<K, Table> = mk(m, false);
                        let d = c.clone();
                        let mut e: Counter<K, Table> = mk(&mm(&[(3, 3)]), false);
                        e.clone_from(&c);
                        same("clone_from", &e, m, 4)?;
                        let v: M = c.into_iter().map(|(k, n)| (k.id(), n)).collect();
                        ensure!(v == *m, "owning iteration shows {:?}", v);
                        same("clone", &d, m, 4)?;
                    }
                    Ok(())
                },
            ));
            // the same for larger ones: sizes, overlaps and, at the same keys, one different count
            let mut cs = vec![];
            for &a in &sizes(quick) {
                for &b in &sizes(quick) {
                    for off in [0, a / 2, a] {
                        cs.push((a, b, off, None));
                    }
                }
                for k in [0, a / 2, a.wrapping_sub(1)] {
                    if k < a {
                        cs.push((a, a, 0, Some(k)));
                    }
                }
            }
            let c2 = cs.clone();
            js.push(cases(
                "equality and copies of pairs of large counters",
                cs.len(),
                move |i| format!("(left size, right size, offset of right keys, different count at) = {:?}", c2[i]),
                move |i| {
                    set_default(Table([0, 1, 2, 3, 4, 5, 6, 7]));
                    let (na, nb, off, one) = cs[i];
                    let a: M = (0..na).map(|k| (k, k as usize % 5)).collect();
                    let b: M = (off..off + nb).map(|k| (k, k as usize % 5 + (one == Some(k)) as usize)).collect();
                    let u = na.max(off + nb) + 2;
                    let x: Counter<u32, Table> = mk(&a, false);
                    let mut y: Counter<u32, Table> = mk(&b, true);
                    ensure!((x == y) == (a == b) && (x != y) == (a != b) && (y == x) == (a == b), "== is {}", x == y);
                    y.clone_from(&x);
                    same("clone_from", &y, &a, u)?;
                    let c: M = (0..nb).map(|k| (k, 7)).collect();
                    let z: Counter<u32, Table> = mk(&c, false);
                    y.clone_from(&z);
                    same("clone_from with other counts", &y, &c, u)?;
                    same("source of clone_from", &x, &a, u)
                },
            ));
            let ns: Vec<u32> = if quick { (0..=40).chain([64, 128, 256, 449, 1000]).collect() } else { (0..=200).chain([256, 449, 1000, 5000]).collect() };
            let n2 = ns.clone();
            js.push(cases(
                "conversions of large maps",
                ns.len(),
                move |i| format!("{} entries", n2[i]),
                move |i| {
                    set_default(Table([0, 1, 2, 3, 4, 5, 6, 7]));
                    let m: M = (0..ns[i]).map(|k| (k, k as usize * 3 % 7)).collect();
                    let u = ns[i] + 1;
                    let h: HashMap<u32, usize, Table> = mk_map(&m, false);
                    let h2: HashMap<u32, usize, FnvBuildHasher> = mk_map(&m, false);
                    same("From(map)", &Counter::<u32, Table>::from(h.clone()), &m, u)?;
                    same("From(map with another hasher)", &Counter::<u32, Table>::from(h2.clone()), &m, u)?;
                    same("From(&map)", &Counter::<u32, Table>::from(&h2), &m, u)?;
                    let mut c = Counter::from_hashmap(h);
                    let d = c.clone();
                    for (_, v) in &mut c {
                        *v += 1
                    }
                    let m1: M = m.iter().map(|(k, v)| (*k, v + 1)).collect();
                    same("counter after mutable iteration", &c, &m1, u)?;
                    same("clone", &d, &m, u)?;
                    ensure!((c == d) == m.is_empty(), "== of different counters");
                    let v: M = c.into_iter().collect();
                    ensure!(v == m1, "owning iteration");
                    Ok(())
                },
            ));
        }
        #[cfg(feature = "C16")]
        "C16" => {
            let ns: Vec<usize> = if quick { (0..=520).chain([896, 897, 1000, 1023, 1024, 1025, 3584, 3585, 4096, 7168, 7169, 14336, 14337, 28672, 28673, 65535, 65536, 65537, 100_000]).collect() } else { (0..=2100).chain([3584, 3585, 4096, 7168, 7169, 10000, 14336, 14337, 50000, 65535, 65536, 65537, 100000, 114688, 114689]).collect() };
            fn promise<T: Key, S: Hs>(js: &mut Vec<Box<dyn Job>>, name: &str, ns: &[usize]) {
                let ns: Vec<usize> = ns.to_vec();
                let n2 = ns.clone();
                js.push(cases(
                    format!("capacity promises with {} and {}", name, S::NAME),
                    ns.len() * 12,
                    move |i| format!("capacity {}, {}", n2[i / 12], ["counter, with_capacity", "counter, with_capacity_and_hasher", "disjoint set, with_capacity, make_set", "disjoint set, with_capacity_and_hasher, make_set", "disjoint set, with_capacity, union", "disjoint set, with_capacity_and_hasher, union", "counter, with_capacity, extend", "disjoint set, with_capacity, extend", "counter, with_capacity, descending with repetitions", "disjoint set, with_capacity, descending with queries", "counter, with_capacity, +=", "disjoint set, with_capacity, all united twice"][i % 12]),
                    move |i| {
                        set_default(Table([0, 1, 2, 3, 4, 5, 6, 7]));
                        let n = ns[i / 12];
                        let asc: Vec<T> = (0..n as u32).map(T::mk).collect();
                        let h = S::mk();
                        macro_rules! quiet {
                            ($e:expr, $($a:tt)*) => {{
                                let e = alloc::allocs();
                                let r = alloc::track(|| $e);
                                let d = alloc::allocs() - e;
                                ensure!(d == 0, "{} allocations {}", d, format!($($a)*));
                                r
                            }};
                        }
                        macro_rules! made {
                            ($e:expr) => {{
                                let e = alloc::allocs();
                                let r = alloc::track(|| $e);
                                let d = alloc::allocs() - e;
                                ensure!(n > 0 || d == 0, "creation with capacity 0 allocates {} times", d);
                                r
                            }};
                        }
                        let counter = |b: bool| -> Result<Counter<T, S>, String> { Ok(if b { made!(Counter::with_capacity_and_hasher(n, h.clone())) } else { made!(Counter::with_capacity(n)) }) };
                        let dset = |b: bool| -> Result<DisjointSet<T, S>, String> { Ok(if b { made!(DisjointSet::with_capacity_and_hasher(n, h.clone())) } else { made!(DisjointSet::with_capacity(n)) }) };
                        let one = |c: &Counter<T, S>, n: usize| -> Res {
                            ensure!(c.len() == n, "{} elements counted, expected {}", c.len(), n);
                            for (_, v) in c.iter() {
                                ensure!(*v >= 1, "count {}", v);
                            }
                            Ok(())
                        };
                        match i % 12 {
                            k @ (0 | 1) => {
                                let mut c = counter(k == 1)?;
                                ensure!(c.is_empty(), "not empty");
                                for (j, x) in asc.into_iter().enumerate() {
                                    quiet!(c.push(x), "when element {} of {} is added", j + 1, n);
                                }
                                one(&c, n)?;
                            }
                            k @ (2 | 3) => {
                                let mut d = dset(k == 3)?;
                                ensure!(d.is_empty() && d.len() == 0, "not empty");
                                for (j, x) in asc.into_iter().enumerate() {
                                    quiet!(d.make_set(x), "when element {} of {} is added", j + 1, n);
                                }
                                ensure!(d.len() == n, "len() is {}, expected {}", d.len(), n);
                            }
                            k @ (4 | 5) => {
                                let mut d = dset(k == 5)?;
                                let mut it = asc.into_iter();
                                if let Some(first) = it.next() {
                                    let mut last = first.clone();
                                    d.make_set(first);
                                    for (j, x) in it.enumerate() {
                                        let (a, b) = (last, x.clone());
                                        last = x;
                                        let c = a.clone();
                                        quiet!(d.union(a, b), "when element {} of {} is united", j + 2, n);
                                        ensure!(d.in_union(&c, &last), "not united");
                                    }
                                }
                                ensure!(d.len() == n, "len() is {}, expected {}", d.len(), n);
                            }
                            6 => {
                                let mut c = counter(false)?;
                                let mut it = asc.into_iter();
                                quiet!(c.extend(it.by_ref()), "when {} elements are added", n);
                                drop(it);
                                one(&c, n)?;
                            }
                            7 => {
                                let mut d = dset(false)?;
                                let mut it = asc.into_iter();
                                quiet!(d.extend(it.by_ref()), "when {} elements are added", n);
                                drop(it);
                                ensure!(d.len() == n, "len() is {}, expected {}", d.len(), n);
                            }
                            8 => {
                                let mut c = counter(false)?;
                                let twice: Vec<T> = asc.iter().rev().flat_map(|x| [x.clone(), x.clone()]).collect();
                                quiet!(
                                    for x in twice.iter() {
                                        let x = alloc::untrack(|| x.clone());
                                        c.push(x)
                                    },
                                    "when {} elements are added twice",
                                    n
                                );
                            }
                            9 => {
                                let mut d = dset(false)?;
                                for x in asc.into_iter().rev() {
                                    let y = x.clone();
                                    quiet!(d.make_set(x), "when one of {} elements is added", n);
                                    let y2 = y.clone();
                                    let z = d.contains(&y) && d.in_union(&y, &y);
                                    ensure!(z, "lost element");
                                    quiet!(
                                        {
                                            d.make_set(y);
                                        },
                                        "when an element is added again ({} of {})",
                                        d.len(),
                                        n
                                    );
                                    drop(y2);
                                }
                                ensure!(d.len() == n, "len() is {}, expected {}", d.len(), n);
                            }
                            10 => {
                                let mut c = counter(false)?;
                                let r: Counter<T, S> = asc.into_iter().collect();
                                for (k, v) in r.into_iter() {
                                    quiet!(
                                        {
                                            for _ in 0..v {
                                                let k = alloc::untrack(|| k.clone());
                                                c.push(k)
                                            }
                                        },
                                        "when one of {} elements is added",
                                        n
                                    );
                                }
                                one(&c, n)?;
                            }
                            _ => {
                                let mut d = dset(false)?;
                                for r in 0..2 {
                                    for k in 1..asc.len() {
                                        let (a, b) = (asc[k].clone(), asc[k / 2].clone());
                                        quiet!(d.union(a, b), "when one of {} elements is united (round {})", n, r);
                                    }
                                }
                                ensure!(d.len() == if n == 1 { 0 } else { n }, "len() is {}", d.len());
                            }
                        }
                        Ok(())
                    },
                ));
            }
            promise::<u32, Table>(&mut js, "u32", &ns);
            promise::<u32, FnvBuildHasher>(&mut js, "u32", &ns);
            promise::<u32, RandomState>(&mut js, "u32", &ns);
            let few: Vec<usize> = ns.iter().copied().filter(|n| *n <= 600).collect();
            promise::<String, FnvBuildHasher>(&mut js, "String", &few);
            // reserve: k elements present, room for r more asked for, r more distinct ones added
            fn reserved<T: Key, S: Hs>(js: &mut Vec<Box<dyn Job>>, name: &str, ks: usize, rs: &[usize]) {
                let rs: Vec<usize> = rs.to_vec();
                let r2 = rs.clone();
                let forms = ["counter, push", "counter, extend", "disjoint set, make_set", "disjoint set, union with an old element", "disjoint set, unions of new elements", "disjoint set, extend", "disjoint set, everything united and cleared before"];
                js.push(cases(
                    format!("reserved room with {} and {}", name, S::NAME),
                    ks * rs.len() * 7,
                    move |i| format!("{} elements, then room for {} more: {}", i / 7 / r2.len(), r2[i / 7 % r2.len()], forms[i % 7]),
                    move |i| {
                        set_default(Table([0, 1, 2, 3, 4, 5, 6, 7]));
                        let (k, r) = (i / 7 / rs.len(), rs[i / 7 % rs.len()]);
                        let fresh: Vec<T> = (k as u32..(k + r) as u32).map(T::mk).collect();
                        macro_rules! quiet {
                            ($e:expr, $j:expr) => {{
                                let e = alloc::allocs();
                                let x = alloc::track(|| $e);
                                let d = alloc::allocs() - e;
                                ensure!(d == 0, "{} allocations while adding element {} of {} after reserve({})", d, $j, r, r);
                                x
                            }};
                        }
                        let counter = || {
                            let mut c: Counter<T, S> = Counter::with_hasher(S::mk());
                            (0..k as u32).for_each(|x| c.push(T::mk(x)));
                            c.reserve(r);
                            c
                        };
                        let dset = || {
                            let mut d: DisjointSet<T, S> = DisjointSet::with_hasher(S::mk());
                            (0..k as u32).for_each(|x| d.make_set(T::mk(x)));
                            if i % 7 == 6 {
                                (0..k as u32).for_each(|x| d.union(T::mk(0), T::mk(x)));
                                d.clear();
                            }
                            d.reserve(r);
                            d
                        };
                        match i % 7 {
                            0 => {
                                let mut c = counter();
                                for (j, x) in fresh.into_iter().enumerate() {
                                    quiet!(c.push(x), j + 1);
                                }
                                ensure!(c.len() == k + r, "{} elements, expected {}", c.len(), k + r);
                            }
                            1 => {
                                let mut c = counter();
                                let mut it = fresh.into_iter();
                                quiet!(c.extend(it.by_ref()), r);
                                ensure!(c.len() == k + r, "{} elements, expected {}", c.len(), k + r);
                            }
                            2 | 6 => {
                                let mut d = dset();
                                let k = if i % 7 == 6 { 0 } else { k };
                                for (j, x) in fresh.into_iter().enumerate() {
                                    quiet!(d.make_set(x), j + 1);
                                }
                                ensure!(d.len() == k + r, "len() is {}, expected {}", d.len(), k + r);
                            }
                            3 => {
                                let mut d = dset();
                                if k > 0 {
                                    for (j, x) in fresh.into_iter().enumerate() {
                                        let a = T::mk((j % k) as u32);
                                        quiet!(d.union(a, x), j + 1);
                                    }
                                    ensure!(d.len() == k + r, "len() is {}, expected {}", d.len(), k + r);
                                }
                            }
                            4 => {
                                let mut d = dset();
                                for (j, x) in fresh.chunks(2).enumerate() {
                                    let (a, b) = (x[0].clone(), x[x.len() - 1].clone());
                                    quiet!(d.union(a, b), 2 * j + 1);
                                }
                                ensure!(d.len() == k + r, "len() is {}, expected {}", d.len(), k + r);
                            }
                            _ => {
                                let mut d = dset();
                                let mut it = fresh.into_iter();
                                quiet!(d.extend(it.by_ref()), r);
                                ensure!(d.len() == k + r, "len() is {}, expected {}", d.len(), k + r);
                            }
                        }
                        Ok(())
                    },
                ));
            }
            let rs: Vec<usize> = if quick { (0..=30).chain([40, 56, 57, 63, 64, 65, 100, 112, 113, 224, 300, 448, 449]).collect() } else { (0..=130).chain([200, 223, 224, 225, 256, 448, 449, 500, 896, 897, 1000, 1792, 3600]).collect() };
            let kk = if quick { 31 } else { 131 };
            reserved::<u32, Table>(&mut js, "u32", kk, &rs);
            reserved::<u32, FnvBuildHasher>(&mut js, "u32", kk, &rs);
            reserved::<u32, RandomState>(&mut js, "u32", kk, &rs);
            reserved::<String, FnvBuildHasher>(&mut js, "String", kk / 2, &rs);
            js.push(cases(
                "creation without a capacity does not allocate, capacities beyond the promise",
                200,
                |i| format!("capacity {}, filled to twice that", i),
                |i| {
                    // behaves as one created without a capacity, also beyond the promised size
                    let mut a: Counter<u32, FnvBuildHasher> = Counter::with_capacity(i);
                    let mut b: Counter<u32, FnvBuildHasher> = Counter::new();
                    let mut d: DisjointSet<u32, FnvBuildHasher> = DisjointSet::with_capacity(i);
                    let mut e: DisjointSet<u32, FnvBuildHasher> = DisjointSet::new();
                    for k in 0..2 * i as u32 + 3 {
                        a.push(k / 2);
                        b.push(k / 2);
                        d.union(k, k / 3);
                        e.union(k, k / 3);
                        ensure!(d.len() == e.len() && d.is_empty() == e.is_empty(), "len() differs: {} and {}", d.len(), e.len());
                    }
                    ensure!(a == b, "content differs");
                    for k in 0..2 * i as u32 + 5 {
                        ensure!(d.contains(&k) == e.contains(&k) && d.in_union(&k, &0) == e.in_union(&k, &0), "disjoint sets differ at {}", k);
                    }
                    Ok(())
                },
            ));
        }
        _ => {}
    }
    js
}
fn main() {
    main_with(jobs)
}
