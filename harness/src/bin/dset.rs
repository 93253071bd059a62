//! DisjointSet: C17..C20.
#![allow(dead_code, unused_macros, unused_imports, unused_variables)]
use advanced_collections::disjoint_set::{DisjointSet, FastDisjointSet};
use fnv::FnvBuildHasher;
use mc::alloc;
use mc::hash::*;
use mc::keys::*;
use mc::*;
use std::collections::hash_map::RandomState;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash};
use std::iter::FromIterator;
use std::marker::PhantomData;

#[cfg(not(miri))]
#[global_allocator]
static A: alloc::Mon = alloc::Mon;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {{ mc::obs(); if !($c) { return Err(format!($($a)*)); } }};
}

/// Reference: the class label of every added element.
#[derive(Clone, Debug, Default, PartialEq)]
struct M(BTreeMap<u32, u32>);
impl M {
    fn make(&mut self, a: u32) {
        self.0.entry(a).or_insert(a);
    }
    fn union(&mut self, a: u32, b: u32) {
        self.make(a);
        self.make(b);
        let (x, y) = (self.0[&a], self.0[&b]);
        if x != y {
            self.0.values_mut().for_each(|v| {
                if *v == y {
                    *v = x
                }
            })
        }
    }
    fn conn(&self, a: u32, b: u32) -> bool {
        match (self.0.get(&a), self.0.get(&b)) {
            (Some(x), Some(y)) => x == y,
            _ => false,
        }
    }
}

/// Membership, length and connectivity of all pairs over a universe.
fn conn<T: Key, S: BuildHasher>(what: &str, d: &mut DisjointSet<T, S>, m: &M, u: u32) -> Res {
    ensure!(d.len() == m.0.len() && d.is_empty() == m.0.is_empty(), "{}: len() {} and is_empty() {}, expected {} elements", what, d.len(), d.is_empty(), m.0.len());
    let keys: Vec<T> = (0..u).map(T::mk).collect();
    for a in 0..u {
        ensure!(d.contains(&keys[a as usize]) == m.0.contains_key(&a), "{}: contains({}) is {}", what, a, !m.0.contains_key(&a));
    }
    for a in 0..u {
        for b in 0..u {
            let g = d.in_union(&keys[a as usize], &keys[b as usize]);
            ensure!(g == m.conn(a, b), "{}: in_union({}, {}) is {}, expected {}", what, a, b, g, m.conn(a, b));
        }
    }
    ensure!(d.len() == m.0.len() && d.is_empty() == m.0.is_empty(), "{}: len() {} after queries, expected {} elements", what, d.len(), m.0.len());
    Ok(())
}
/// Iteration yields the partition.
fn part<T: Key, S: BuildHasher>(what: &str, d: &mut DisjointSet<T, S>, m: &M, collect: bool) -> Res {
    let mut seen: BTreeMap<u32, usize> = BTreeMap::new();
    let mut labels: Vec<u32> = vec![];
    let mut group = |g: std::vec::IntoIter<&T>, n: usize| -> Res {
        let mut label = None;
        for k in g {
            let k = k.id();
            let l = match m.0.get(&k) {
                Some(l) => *l,
                None => return Err(format!("{}: iteration shows {} which was not added", what, k)),
            };
            ensure!(seen.insert(k, n).is_none(), "{}: iteration shows {} twice", what, k);
            ensure!(label.is_none() || label == Some(l), "{}: iteration puts {} in a group of another subset", what, k);
            label = Some(l);
        }
        match label {
            None => Err(format!("{}: iteration shows an empty group", what)),
            Some(l) => {
                ensure!(!labels.contains(&l), "{}: iteration splits a subset", what);
                labels.push(l);
                Ok(())
            }
        }
    };
    if collect {
        let groups: Vec<_> = d.into_iter().collect();
        for (n, g) in groups.into_iter().enumerate() {
            group(g, n)?
        }
    } else {
        for (n, g) in d.into_iter().enumerate() {
            group(g, n)?
        }
    }
    ensure!(seen.len() == m.0.len(), "{}: iteration shows {} elements, expected {}", what, seen.len(), m.0.len());
    Ok(())
}

/// The methods of the iterator: each yields whole and different subsets, and the right number of them.
fn part_methods<T: Key, S: BuildHasher>(what: &str, d: &mut DisjointSet<T, S>, m: &M) -> Res {
    let mut sizes: BTreeMap<u32, usize> = BTreeMap::new();
    m.0.values().for_each(|l| *sizes.entry(*l).or_insert(0) += 1);
    let n = sizes.len();
    // labels of the groups, after checking that they are whole
    let whole = |w: &str, gs: Vec<Vec<u32>>, want: usize| -> Res {
        ensure!(gs.len() == want, "{}: {} yields {} groups, expected {} of {}", what, w, gs.len(), want, n);
        let mut seen = vec![];
        for g in &gs {
            let l = match g.first().and_then(|k| m.0.get(k)) {
                Some(l) => *l,
                None => return Err(format!("{}: {} yields the group {:?}", what, w, g)),
            };
            let mut h = g.clone();
            h.sort();
            h.dedup();
            ensure!(!seen.contains(&l) && h.len() == g.len() && g.len() == sizes[&l] && g.iter().all(|k| m.0.get(k) == Some(&l)), "{}: {} yields {:?}", what, w, gs);
            seen.push(l);
        }
        Ok(())
    };
    macro_rules! ids {
        ($g:expr) => {
            $g.map(|k| k.id()).collect::<Vec<u32>>()
        };
    }
    for k in 0..=n + 1 {
        let mut it = d.into_iter();
        let mut gs = vec![];
        let (lo, hi) = it.size_hint();
        ensure!(lo <= n && hi.map_or(true, |h| h >= n), "{}: size_hint() is {:?} for {} groups", what, (lo, hi), n);
        if let Some(g) = it.nth(k) {
            gs.push(ids!(g));
        }
        let left = n.saturating_sub(k + 1);
        let (lo, hi) = it.size_hint();
        ensure!(lo <= left && hi.map_or(true, |h| h >= left), "{}: size_hint() is {:?} with {} groups left", what, (lo, hi), left);
        it.for_each(|g| gs.push(ids!(g)));
        whole(&format!("nth({}) and the rest", k), gs, n.saturating_sub(k))?;
        let c = {
            let mut it = d.into_iter();
            (0..k).for_each(|_| drop(it.next()));
            it.count()
        };
        ensure!(c == n.saturating_sub(k), "{}: count() after {} groups is {}, expected {}", what, k, c, n.saturating_sub(k));
        let mut gs = vec![];
        {
            let mut it = d.into_iter();
            (0..k).for_each(|_| gs.extend(it.next().map(|g| ids!(g))));
            gs.extend(it.last().map(|g| ids!(g)));
        }
        whole(&format!("last() after {} groups", k), gs, n.min(k + 1))?;
        let gs = d.into_iter().skip(k).map(|g| ids!(g)).collect();
        whole(&format!("skip({})", k), gs, n.saturating_sub(k))?;
        let gs = d.into_iter().take(k).fold(vec![], |mut v, g| {
            v.push(ids!(g));
            v
        });
        whole(&format!("take({})", k), gs, n.min(k))?;
        let gs = d.into_iter().step_by(k + 1).map(|g| ids!(g)).collect();
        whole(&format!("step_by({})", k + 1), gs, (n + k) / (k + 1))?;
    }
    Ok(())
}

#[derive(Clone, Debug, PartialEq)]
enum Op {
    New,
    Default,
    WithCap(usize),
    WithHasher,
    WithCapHasher(usize),
    From(Vec<u32>, Hint),
    FromRef(Vec<u32>, Hint),
    Make(u32),
    Union(u32, u32),
    InUnion(u32, u32),
    Contains(u32),
    Ext(Vec<u32>, Hint),
    ExtRef(Vec<u32>, Hint),
    Reserve(usize),
    Iterate(bool),
    Partly(usize, usize),
    Clear,
    CloneAway,
    CloneBack,
    CloneFrom,
    CloneUp,
}
/// What is observed in every state.
#[derive(Clone, Copy, PartialEq)]
enum Obs {
    Conn,
    Part,
    Both,
}
struct St<T: Key, S: Hs> {
    d: DisjointSet<T, S>,
    m: M,
    side: Option<(DisjointSet<T, S>, M)>,
}
struct Hist<T: Key, S: Hs> {
    name: String,
    table: Table,
    obs: Obs,
    ops: Vec<Op>,
    extra: Vec<Op>,
    /// each root is a list of operations, as indices into `ops` followed by `extra`
    roots: Vec<Vec<u16>>,
    universe: u32,
    by_ref: Option<fn(&mut dyn std::any::Any, &[u32], Hint)>,
    _p: PhantomData<fn() -> (T, S)>,
}
impl<T: Key, S: Hs> Hist<T, S> {
    fn new(name: &str, table: Table, obs: Obs, ops: Vec<Op>, extra: Vec<Op>, universe: u32) -> Self {
        let n = ops.len();
        let roots = if extra.is_empty() { vec![vec![]] } else { (0..extra.len()).map(|i| vec![(n + i) as u16]).collect() };
        let t = std::any::type_name::<T>().rsplit("::").next().unwrap();
        Hist { name: format!("{} ({}, {}{})", name, t, S::NAME, if S::NAME == "Table" { format!(" {:?}", table.0) } else { String::new() }), table, obs, ops, extra, roots, universe, by_ref: None, _p: PhantomData }
    }
    /// One root that performs all the extra operations.
    fn one_root(mut self) -> Self {
        let n = self.ops.len();
        self.roots = vec![(0..self.extra.len()).map(|i| (n + i) as u16).collect()];
        self
    }
    fn op(&self, i: u16) -> &Op {
        let i = i as usize;
        if i < self.ops.len() {
            &self.ops[i]
        } else {
            &self.extra[i - self.ops.len()]
        }
    }
}
impl<S: Hs> Hist<K, S> {
    fn refs(mut self) -> Self {
        self.by_ref = Some(ext_ref::<K, S>);
        self
    }
}
fn ks<T: Key>(v: &[u32]) -> Vec<T> {
    v.iter().map(|k| T::mk(*k)).collect()
}
fn ext_ref<T: Key + Copy, S: Hs>(c: &mut dyn std::any::Any, v: &[u32], h: Hint) {
    let c = c.downcast_mut::<DisjointSet<T, S>>().unwrap();
    let w = ks::<T>(v);
    c.extend(Feed(w.iter(), h));
}
fn bytes(s: &str, out: &mut Vec<u64>) {
    out.push(s.len() as u64);
    for c in s.as_bytes().chunks(8) {
        let mut b = [0; 8];
        b[..c.len()].copy_from_slice(c);
        out.push(u64::from_le_bytes(b));
    }
}
impl<T: Key, S: Hs> Scn for Hist<T, S> {
    type St = St<T, S>;
    fn label(&self) -> String {
        self.name.clone()
    }
    fn nops(&self) -> usize {
        self.ops.len()
    }
    fn op_str(&self, op: u16) -> String {
        format!("{:?}", self.op(op))
    }
    fn roots(&self) -> Vec<Vec<u16>> {
        self.roots.clone()
    }
    fn init(&self) -> Self::St {
        set_default(self.table);
        St { d: DisjointSet::with_hasher(S::mk()), m: M::default(), side: None }
    }
    fn step(&self, st: &mut Self::St, op: u16) -> Step {
        let op = self.op(op);
        let St { d, m, side } = st;
        match op {
            Op::New | Op::Default | Op::WithCap(_) | Op::WithHasher | Op::WithCapHasher(_) => {
                *m = M::default();
                *d = match op {
                    Op::New => DisjointSet::new(),
                    Op::Default => Default::default(),
                    Op::WithCap(n) => DisjointSet::with_capacity(*n),
                    Op::WithHasher => DisjointSet::with_hasher(S::mk()),
                    Op::WithCapHasher(n) => DisjointSet::with_capacity_and_hasher(*n, S::mk()),
                    _ => unreachable!(),
                };
            }
            Op::From(v, h) => {
                *d = DisjointSet::from_iter(Feed(ks::<T>(v).into_iter(), *h));
                *m = M::default();
                v.iter().for_each(|k| m.make(*k));
            }
            Op::FromRef(v, h) => {
                let w = ks::<T>(v);
                *d = DisjointSet::from_iter(Feed(w.iter(), *h));
                *m = M::default();
                v.iter().for_each(|k| m.make(*k));
            }
            Op::Make(k) => {
                d.make_set(T::mk(*k));
                m.make(*k);
            }
            Op::Union(a, b) => {
                d.union(T::mk(*a), T::mk(*b));
                m.union(*a, *b);
            }
            Op::InUnion(a, b) => {
                let g = d.in_union(&T::mk(*a), &T::mk(*b));
                ensure!(g == m.conn(*a, *b), "in_union({}, {}) is {}, expected {}", a, b, g, m.conn(*a, *b));
            }
            Op::Contains(a) => ensure!(d.contains(&T::mk(*a)) == m.0.contains_key(a), "contains({}) is {}", a, !m.0.contains_key(a)),
            Op::Ext(v, h) => {
                d.extend(Feed(ks::<T>(v).into_iter(), *h));
                v.iter().for_each(|k| m.make(*k));
            }
            Op::ExtRef(v, h) => {
                match self.by_ref {
                    Some(f) => f(d, v, *h),
                    None => return Ok(Flow::Disabled),
                }
                v.iter().for_each(|k| m.make(*k));
            }
            Op::Reserve(n) => d.reserve(*n),
            Op::Iterate(c) => part("iteration step", d, m, *c)?,
            Op::Partly(g, e) => {
                let mut it = d.into_iter();
                let mut last = None;
                for _ in 0..*g {
                    last = it.next();
                }
                if let Some(mut l) = last {
                    for _ in 0..*e {
                        if let Some(k) = l.next() {
                            ensure!(m.0.contains_key(&k.id()), "iteration shows {:?}", k);
                        }
                    }
                }
            }
            Op::Clear => {
                d.clear();
                *m = M::default();
            }
            Op::CloneAway => *side = Some((d.clone(), m.clone())),
            Op::CloneBack => match side.as_mut() {
                None => return Ok(Flow::Disabled),
                Some((d2, m2)) => {
                    std::mem::swap(d, d2);
                    std::mem::swap(m, m2);
                }
            },
            // overwrite the other one with a copy of this one
            Op::CloneFrom => match side.as_mut() {
                None => return Ok(Flow::Disabled),
                Some((d2, m2)) => {
                    d2.clone_from(d);
                    m2.clone_from(m);
                }
            },
            // overwrite this one with a copy of the other one
            Op::CloneUp => match side.as_ref() {
                None => return Ok(Flow::Disabled),
                Some((d2, m2)) => {
                    d.clone_from(d2);
                    m.clone_from(m2);
                }
            },
        }
        Ok(Flow::Go)
    }
    fn key(&self, st: &Self::St) -> Vec<u64> {
        let mut k = vec![];
        bytes(&format!("{:?}", st.d), &mut k);
        if let Some((d, _)) = &st.side {
            bytes(&format!("{:?}", d), &mut k);
        }
        k
    }
    fn check(&self, st: &mut Self::St) -> Res {
        fn one<T: Key, S: BuildHasher>(w: &str, d: &mut DisjointSet<T, S>, m: &M, u: u32, obs: Obs) -> Res {
            match obs {
                Obs::Conn => conn(w, d, m, u),
                _ => {
                    part(w, d, m, false)?;
                    if obs == Obs::Part && m.0.len() <= 5 {
                        part_methods(w, d, m)?;
                    }
                    conn(w, d, m, u)?;
                    part(w, d, m, true)
                }
            }
        }
        one("set", &mut st.d, &st.m, self.universe, self.obs)?;
        if let Some((d, m)) = &mut st.side {
            one("other copy", d, m, self.universe, self.obs)?;
        }
        Ok(())
    }
    fn end(&self, st: Self::St) -> Res {
        drop(st);
        ensure!(tok::live() == 0, "{} elements are alive after the set was dropped", tok::live());
        Ok(())
    }
}

fn unions(n: u32) -> Vec<Op> {
    (0..n).flat_map(|a| (0..n).map(move |b| Op::Union(a, b))).collect()
}
fn queries(n: u32) -> Vec<Op> {
    (0..n).flat_map(|a| (0..n).map(move |b| Op::InUnion(a, b))).collect()
}
fn makes(n: u32) -> Vec<Op> {
    (0..n).map(Op::Make).collect()
}
fn words(keys: u32, len: usize) -> Vec<Vec<u32>> {
    let mut v: Vec<Vec<u32>> = vec![vec![]];
    let mut k = 0;
    while k < v.len() {
        if v[k].len() < len {
            for a in 0..keys {
                let mut w = v[k].clone();
                w.push(a);
                v.push(w);
            }
        }
        k += 1;
    }
    v
}
fn ctors() -> Vec<Op> {
    let mut e = vec![Op::New, Op::Default, Op::WithHasher];
    for n in [0, 1, 3] {
        e.push(Op::WithCap(n));
        e.push(Op::WithCapHasher(n));
    }
    e
}
fn froms(keys: u32, len: usize) -> Vec<Op> {
    let mut e = vec![];
    for w in words(keys, len) {
        for h in HINTS {
            e.push(Op::From(w.clone(), h));
            e.push(Op::FromRef(w.clone(), h));
        }
    }
    e
}
fn exts(by_ref: bool) -> Vec<Op> {
    let mut o = vec![];
    for (w, h) in [(vec![], Hint::Unknown), (vec![1, 0], Hint::Exact), (vec![2, 2, 0], Hint::Low), (vec![3, 1], Hint::Over), (vec![0, 1, 2], Hint::Unknown)] {
        o.push(Op::Ext(w.clone(), h));
        if by_ref {
            o.push(Op::ExtRef(w, h));
        }
    }
    o
}
fn cat(v: &[&[Op]]) -> Vec<Op> {
    v.iter().flat_map(|x| x.iter().cloned()).collect()
}

// ---- programs: structured histories of any size ------------------------------------------------------
/// Reference union-find for large universes (iterative, by size).
struct Ref {
    p: Vec<u32>,
    n: Vec<u32>,
}
impl Ref {
    fn new(n: usize) -> Ref {
        Ref { p: (0..n as u32).collect(), n: vec![1; n] }
    }
    fn find(&mut self, mut a: u32) -> u32 {
        while self.p[a as usize] != a {
            self.p[a as usize] = self.p[self.p[a as usize] as usize];
            a = self.p[a as usize];
        }
        a
    }
    fn union(&mut self, a: u32, b: u32) {
        let (mut a, mut b) = (self.find(a), self.find(b));
        if a == b {
            return;
        }
        if self.n[a as usize] < self.n[b as usize] {
            std::mem::swap(&mut a, &mut b);
        }
        self.p[b as usize] = a;
        self.n[a as usize] += self.n[b as usize];
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum At {
    New,
    Prev,
    Before,
    First,
    Half,
}
const ATS: [At; 5] = [At::New, At::Prev, At::Before, At::First, At::Half];
impl At {
    fn at(self, i: u32) -> u32 {
        match self {
            At::New => i,
            At::Prev => i.saturating_sub(1),
            At::Before => i.saturating_sub(2),
            At::First => 0,
            At::Half => i / 2,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Birth {
    OnDemand,
    Ascending,
    Descending,
}
const BIRTHS: [Birth; 3] = [Birth::OnDemand, Birth::Ascending, Birth::Descending];
#[derive(Clone, Copy, Debug, PartialEq)]
enum Rep {
    Left,
    Right,
    Mid,
}
/// A family of union orders on 0..n.
#[derive(Clone, Debug, PartialEq)]
enum Prog {
    /// step i of n performs pair (i mod period)
    Periodic(Vec<(At, At)>),
    /// trees of `arity` equal parts, recursively; each merge performs the listed unions of
    /// (part, representative) with (part, representative)
    Tournament(u32, Vec<((u32, Rep), (u32, Rep))>),
    /// sizes grow like Fibonacci numbers: the larger part is merged with the smaller one
    Fib(bool, Rep, Rep),
    /// balanced trees of that many elements each, then joined one after another: tree j with the tree
    /// before it or with the first one, in either orientation, through the given representatives
    Blocks(u32, bool, bool, Rep, Rep),
}
fn rep(r: Rep, lo: u32, hi: u32) -> u32 {
    match r {
        Rep::Left => lo,
        Rep::Right => hi - 1,
        Rep::Mid => lo + (hi - lo) / 2,
    }
}
fn fib(lo: u32, n: u32, sw: bool, a: Rep, b: Rep, f: &mut dyn FnMut(u32, u32)) {
    // sizes: n = big + small with big the largest Fibonacci number < n
    if n < 2 {
        return;
    }
    let (mut x, mut y) = (1u32, 1u32);
    while x + y < n {
        let z = x + y;
        x = y;
        y = z;
    }
    let big = y.min(n - 1);
    fib(lo, big, sw, a, b, f);
    fib(lo + big, n - big, sw, a, b, f);
    let (u, v) = (rep(a, lo, lo + big), rep(b, lo + big, lo + n));
    if sw {
        f(v, u)
    } else {
        f(u, v)
    }
}
impl Prog {
    fn run(&self, n: u32, f: &mut dyn FnMut(u32, u32)) {
        match self {
            Prog::Periodic(p) => {
                for i in 0..n {
                    let (a, b) = p[i as usize % p.len()];
                    f(a.at(i), b.at(i));
                }
            }
            Prog::Tournament(k, us) => {
                let mut w = 1u32;
                while w * k <= n {
                    let mut lo = 0;
                    while lo + w * k <= n {
                        for ((pa, ra), (pb, rb)) in us {
                            let (la, lb) = (lo + pa * w, lo + pb * w);
                            f(rep(*ra, la, la + w), rep(*rb, lb, lb + w));
                        }
                        lo += w * k;
                    }
                    w *= k;
                }
            }
            Prog::Fib(sw, a, b) => fib(0, n, *sw, *a, *b, f),
            Prog::Blocks(w, first, sw, a, b) => {
                for j in 0..n / w {
                    Prog::Tournament(2, vec![((0, Rep::Left), (1, Rep::Left))]).run(*w, &mut |x, y| f(j * w + x, j * w + y));
                }
                for j in 1..n / w {
                    let k = if *first { 0 } else { j - 1 };
                    let (x, y) = (rep(*a, j * w, j * w + w), rep(*b, k * w, k * w + w));
                    if *sw {
                        f(y, x)
                    } else {
                        f(x, y)
                    }
                }
            }
        }
    }
}
fn programs(quick: bool) -> Vec<Prog> {
    let mut pairs = vec![];
    for a in ATS {
        for b in ATS {
            if a != b {
                pairs.push((a, b));
            }
        }
    }
    let mut v: Vec<Prog> = vec![];
    for p in &pairs {
        v.push(Prog::Periodic(vec![*p]));
    }
    for p in &pairs {
        for q in &pairs {
            if p != q {
                v.push(Prog::Periodic(vec![*p, *q]));
            }
        }
    }
    if !quick {
        // period 3 over the pairs that involve the new element
        let news: Vec<_> = pairs.iter().copied().filter(|p| p.0 == At::New || p.1 == At::New).collect();
        for p in &news {
            for q in &news {
                for r in &news {
                    v.push(Prog::Periodic(vec![*p, *q, *r]));
                }
            }
        }
    }
    let reps = [Rep::Left, Rep::Right, Rep::Mid];
    for a in reps {
        for b in reps {
            v.push(Prog::Tournament(2, vec![((0, a), (1, b))]));
            v.push(Prog::Tournament(2, vec![((1, b), (0, a))]));
            v.push(Prog::Fib(false, a, b));
            v.push(Prog::Fib(true, a, b));
        }
    }
    let lr = [Rep::Left, Rep::Right];
    for w in if quick { vec![2, 4, 8, 16, 32, 128] } else { vec![2, 3, 4, 5, 8, 16, 31, 32, 64, 128, 256, 1024] } {
        for a in lr {
            for b in lr {
                for k in 0..4 {
                    v.push(Prog::Blocks(w, k & 1 == 0, k & 2 == 0, a, b));
                }
            }
        }
    }
    let mut us = vec![];
    for a in 0..3 {
        for b in 0..3 {
            for x in lr {
                for y in lr {
                    if a != b {
                        us.push(((a, x), (b, y)));
                    }
                }
            }
        }
    }
    for u in &us {
        for w in &us {
            let (p, q) = ((u.0 .0, u.1 .0), (w.0 .0, w.1 .0));
            let mut parts = [false; 3];
            for x in [p.0, p.1, q.0, q.1] {
                parts[x as usize] = true;
            }
            if parts == [true; 3] {
                v.push(Prog::Tournament(3, vec![*u, *w]));
            }
        }
    }
    v
}
fn born<S: Hs>(n: u32, b: Birth) -> DisjointSet<u32, S> {
    let mut d = DisjointSet::with_hasher(S::mk());
    match b {
        Birth::OnDemand => {}
        Birth::Ascending => (0..n).for_each(|k| d.make_set(k)),
        Birth::Descending => (0..n).rev().for_each(|k| d.make_set(k)),
    }
    d
}

// ---- depth ------------------------------------------------------------------------------------------
const PAINT: usize = 96 << 10;
const MARK: u64 = 0x5AFE_57AC_C0FF_EE11;
#[inline(never)]
fn here() -> usize {
    let x = 0u8;
    std::hint::black_box(&x) as *const u8 as usize
}
/// Fills the unused stack below with a mark; returns the top of the marked area.
#[inline(never)]
fn paint() -> usize {
    let top = (here() - 1024) & !7;
    let mut p = top;
    while p > top - PAINT {
        p -= 8;
        unsafe { (p as *mut u64).write_volatile(MARK) }
    }
    top
}
/// Bytes of the marked area that were used since.
#[inline(never)]
fn used(top: usize) -> usize {
    let mut p = top - PAINT;
    while p < top && unsafe { (p as *const u64).read_volatile() } == MARK {
        p += 8;
    }
    top - p
}
/// Depth of the deepest element, from the derived Debug form; None when it has another form.
fn depth<S: BuildHasher + Debug>(d: &DisjointSet<u32, S>) -> Option<usize> {
    let s = format!("{:?}", d);
    let mut parents = vec![];
    for x in s.split("parent: ").skip(1) {
        let e = x.find(|c: char| !c.is_ascii_digit())?;
        parents.push(x[..e].parse::<usize>().ok()?);
    }
    let n = parents.len();
    if n != d.len() || parents.iter().any(|p| *p >= n) {
        return None;
    }
    let mut best = 0;
    for i in 0..n {
        let (mut x, mut k) = (i, 0);
        while parents[x] != x {
            x = parents[x];
            k += 1;
            if k > n {
                return None;
            }
        }
        best = best.max(k);
    }
    Some(best)
}
fn log2(n: usize) -> usize {
    (usize::BITS - n.max(1).leading_zeros()) as usize
}
/// Runs `f` on a thread with a small stack.
fn small<R: Send>(f: impl FnOnce() -> R + Send) -> Result<R, String> {
    std::thread::scope(|s| {
        let h = std::thread::Builder::new().stack_size(192 << 10).spawn_scoped(s, f).unwrap();
        h.join().map_err(|p| {
            let m = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default();
            format!("unexpected panic: {}", m)
        })
    })
}
#[inline(never)]
fn build_and_query<S: Hs>(p: &Prog, n: u32, b: Birth, order: usize) -> Res {
    let mut d: DisjointSet<u32, S> = born(n, b);
    p.run(n, &mut |a, b| d.union(a, b));
    // one deep query first, then all of them
    let mut wrong = 0u32;
    let mut q = |a: u32| {
        if !d.in_union(&a, &a) {
            wrong += d.contains(&a) as u32
        }
    };
    match order {
        0 => (0..n).for_each(&mut q),
        1 => (0..n).rev().for_each(&mut q),
        _ => {}
    }
    ensure!(wrong == 0, "{} elements are not in union with themselves", wrong);
    let c = if order == 2 { d.into_iter().count() } else { 0 };
    std::hint::black_box(c);
    Ok(())
}

// ---- C17: which of several equal elements is kept ----------------------------------------------------
/// Equal and hashed by `.0` only; `.1` tells equal elements apart.
#[derive(Clone, Copy, Debug)]
struct Same<A>(A, A);
macro_rules! same {
    ($t:ty) => {
        impl PartialEq for Same<$t> {
            fn eq(&self, o: &Self) -> bool {
                self.0 == o.0
            }
        }
        impl Eq for Same<$t> {}
        impl Hash for Same<$t> {
            fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
                self.0.hash(h)
            }
        }
    };
}
same!(u8);
same!(u64);
trait Twin: Hash + Eq + Copy + Send + Sync + 'static {
    fn mk(k: u8, tag: u8) -> Self;
    fn get(&self) -> (u8, u8);
}
impl Twin for Same<u8> {
    fn mk(k: u8, tag: u8) -> Self {
        Same(k, tag)
    }
    fn get(&self) -> (u8, u8) {
        (self.0, self.1)
    }
}
impl Twin for Same<u64> {
    fn mk(k: u8, tag: u8) -> Self {
        Same(k as u64, tag as u64)
    }
    fn get(&self) -> (u8, u8) {
        (self.0 as u8, self.1 as u8)
    }
}
const TWINS: [&str; 13] = [
    "make 0", "make 1", "make 2", "union 0 1", "union 2 0", "union 1 2", "extend 0 1 0", "extend by reference 2 2", "query 0 1", "iterate", "clone", "reserve 20", "clear",
];
/// Every element given has a number of its own: adding one equal to an earlier one keeps the earlier one.
fn twins<T: Twin, S: BuildHasher + Default + Clone + 'static>(what: &'static str, depth: u32) -> Box<dyn Job> {
    let n = TWINS.len();
    let word = move |i: usize| (0..depth).map(|d| i / n.pow(d) % n).collect::<Vec<_>>();
    mc::cases(
        format!("equal elements that can be told apart, {}: {} operations", what, depth),
        n.pow(depth),
        move |i| word(i).iter().map(|o| format!("; {}", TWINS[*o])).collect::<String>(),
        move |i| {
            let mut d = DisjointSet::<T, S>::default();
            let mut m: BTreeMap<u8, u8> = BTreeMap::new();
            let mut tag = 0u8;
            let mut give = |m: &mut BTreeMap<u8, u8>, k: u8| {
                tag += 1;
                m.entry(k).or_insert(tag);
                T::mk(k, tag)
            };
            for o in word(i) {
                match o {
                    0..=2 => d.make_set(give(&mut m, o as u8)),
                    3..=5 => {
                        let (a, b) = [(0, 1), (2, 0), (1, 2)][o - 3];
                        let (x, y) = (give(&mut m, a), give(&mut m, b));
                        d.union(x, y)
                    }
                    6 => {
                        let v = vec![give(&mut m, 0), give(&mut m, 1), give(&mut m, 0)];
                        d.extend(v)
                    }
                    7 => {
                        let v = vec![give(&mut m, 2), give(&mut m, 2)];
                        d.extend(&v)
                    }
                    8 => {
                        d.in_union(&T::mk(0, 99), &T::mk(1, 99));
                    }
                    9 => (&mut d).into_iter().for_each(|s| drop(s)),
                    10 => d = d.clone(),
                    11 => d.reserve(20),
                    _ => {
                        d.clear();
                        m.clear()
                    }
                }
                let mut g: Vec<(u8, u8)> = (&mut d).into_iter().flatten().map(|x| x.get()).collect();
                g.sort();
                let w: Vec<(u8, u8)> = m.iter().map(|(k, t)| (*k, *t)).collect();
                ensure!(g == w, "after {} the elements are {:?}, the first ones given are {:?} (element, number of the call)", TWINS[o], g, w);
            }
            Ok(())
        },
    )
}

fn jobs(prop: &str, quick: bool) -> Vec<Box<dyn Job>> {
    let mut js: Vec<Box<dyn Job>> = vec![];
    let few = few_tables();
    let bfs = Mode::Bfs { max_states: 3_000_000 };
    match prop {
        #[cfg(any(feature = "C17", feature = "C18"))]
        p @ ("C17" | "C18") => {
            let it = p == "C18";
            if !it {
                let depth = if quick { 4 } else { 5 };
                js.push(twins::<Same<u8>, RandomState>("small", depth));
                js.push(twins::<Same<u64>, RandomState>("large", depth));
                js.push(twins::<Same<u64>, FnvBuildHasher>("fast", depth));
            }
            let obs = if it { Obs::Part } else { Obs::Conn };
            let iters = if it { vec![Op::Iterate(false), Op::Iterate(true), Op::Partly(0, 0), Op::Partly(1, 0), Op::Partly(1, 1), Op::Partly(2, 1), Op::Partly(2, 2)] } else { vec![Op::Contains(0), Op::Contains(4), Op::Reserve(9)] };
            for t in few.iter().copied() {
                let o = cat(&[&makes(4), &unions(4), &queries(5), &exts(true), &iters]);
                js.push(explore(Hist::<K, Table>::new("all reachable structures, 4 elements created in any order", t, obs, o, ctors(), 5).refs(), bfs));
            }
            let big = if quick { vec![5, 6] } else { vec![5, 6, 7] };
            for n in big {
                for t in if n < 6 { few.clone() } else { vec![few[0]] } {
                    let o = cat(&[&unions(n), &queries(n), &iters]);
                    js.push(explore(Hist::<K, Table>::new(&format!("all reachable structures, {} elements", n), t, obs, o, makes(n), n + 1).one_root(), bfs));
                }
            }
            let o3 = cat(&[&makes(3), &unions(3), &queries(4), &exts(false), &iters]);
            for t in [few[0], few[3]] {
                js.push(explore(Hist::<Tk, Table>::new("all histories, 3 tracked elements", t, obs, o3.clone(), vec![Op::New], 4), Mode::Words { depth: if quick { 3 } else { 4 } }));
            }
            js.push(explore(Hist::<String, RandomState>::new("all histories, 3 elements", few[0], obs, o3.clone(), vec![Op::New], 4), Mode::Words { depth: if quick { 3 } else { 4 } }));
            js.push(explore(Hist::<&'static str, FnvBuildHasher>::new("all histories, 3 elements", few[0], obs, o3.clone(), vec![Op::New], 4), Mode::Words { depth: if quick { 3 } else { 4 } }));
            js.push(explore(Hist::<K, Table>::new("all union orders, 4 elements", few[2], obs, cat(&[&unions(4), &iters[..1]]), makes(4), 5).one_root(), Mode::Words { depth: if quick { 4 } else { 5 } }));
            let mut r: Vec<Op> = froms(3, if quick { 3 } else { 4 });
            r.extend(ctors());
            js.push(explore(Hist::<K, Table>::new("all histories after every construction", few[2], obs, cat(&[&makes(3), &unions(3), &queries(4), &exts(true), &iters]), r, 5).refs(), Mode::Words { depth: if quick { 1 } else { 2 } }));
            let o = cat(&[&unions(4), &[Op::InUnion(0, 3), Op::Iterate(false), Op::Ext(vec![0, 5], Hint::Exact)]]);
            js.push(explore(Hist::<K, Table>::new("repeated histories", few[2], obs, o, vec![Op::New], 6), Mode::Pump { len: 2, reps: 300 }));
            // structured programs, larger universes
            let ps = programs(quick);
            let ns: Vec<u32> = if quick { vec![12, 33, 255, 256, 257, 300] } else { vec![7, 12, 16, 33, 100, 127, 128, 129, 255, 256, 257, 300, 1000] };
            let (ps2, ns2) = (ps.clone(), ns.clone());
            let per = ns.len() * 3;
            js.push(cases(
                "structured union orders against a reference union-find",
                ps.len() * per,
                move |i| format!("{:?}, {} elements, created {:?}", ps2[i / per], ns2[i % per / 3], BIRTHS[i % 3]),
                move |i| program_check(&ps[i / per], ns[i % per / 3], BIRTHS[i % 3], it, i % 7 == 0),
            ));
            let ps: Vec<Prog> = programs(true).into_iter().filter(|p| !matches!(p, Prog::Periodic(v) if v.len() > 1) && !matches!(p, Prog::Tournament(3, v) if v[0].0.0 != 0)).collect();
            let ns: Vec<u32> = if quick { vec![65537] } else { vec![65535, 65536, 65537, 140_000] };
            let chunks: Vec<Vec<Prog>> = ps.chunks(ps.len() / 16 + 1).map(|c| c.to_vec()).collect();
            for (k, ps) in chunks.into_iter().enumerate() {
                let (ps2, ns, ns2) = (ps.clone(), ns.clone(), ns.clone());
                let per = ns.len() * 3;
                js.push(cases(
                    format!("structured union orders on many elements against a reference union-find, part {}", k + 1),
                    ps.len() * per,
                    move |i| format!("{:?}, {} elements, created {:?}", ps2[i / per], ns2[i % per / 3], BIRTHS[i % 3]),
                    move |i| program_check(&ps[i / per], ns[i % per / 3], BIRTHS[i % 3], it, i % 5 == 0),
                ));
            }
        }
        #[cfg(feature = "C19")]
        "C19" => {
            // every structure that can be reached with few elements is balanced
            for (n, t) in [(4u32, few[0]), (5, few[0]), (6, few[0])] {
                let mut h = Hist::<K, Table>::new("", t, Obs::Conn, cat(&[&unions(n), &queries(n)]), makes(n), n).one_root();
                h.name = format!("all reachable structures, {} elements: connectivity stays right", n);
                js.push(explore(h, bfs));
            }
            let ps = programs(quick);
            let ps2 = ps.clone();
            let ns = [100u32, 2000];
            js.push(cases(
                "depth of every element after structured union orders",
                ps.len() * 3 * ns.len(),
                move |i| format!("{:?}, {} elements, created {:?}", ps2[i / 3 / ns.len()], ns[i / 3 % ns.len()], BIRTHS[i % 3]),
                move |i| {
                    let n = ns[i / 3 % ns.len()];
                    let mut d: DisjointSet<u32, FnvBuildHasher> = born(n, BIRTHS[i % 3]);
                    let bound = 2 * log2(n as usize) + 4;
                    ps[i / 3 / ns.len()].run(n, &mut |a, b| d.union(a, b));
                    if let Some(k) = depth(&d) {
                        ensure!(k <= bound, "an element is {} steps away from its representative among {} elements", k, n);
                    }
                    Ok(())
                },
            ));
            let ps = programs(quick);
            let n: u32 = if quick { 60_000 } else { 300_000 };
            let per = 9;
            // split over jobs so that all workers take part
            let chunks: Vec<Vec<Prog>> = ps.chunks(ps.len() / 16 + 1).map(|c| c.to_vec()).collect();
            for (k, ps) in chunks.into_iter().enumerate() {
                let ps2 = ps.clone();
                js.push(cases(
                    format!("stack use of structured union orders on {} elements, part {}", n, k + 1),
                    ps.len() * per,
                    move |i| format!("{:?}, {} elements, created {:?}, queried {}", ps2[i / per], n, BIRTHS[i / 3 % 3], ["ascending", "descending", "by iteration"][i % 3]),
                    move |i| {
                        let (p, b, q) = (&ps[i / per], BIRTHS[i / 3 % 3], i % 3);
                        let u = small(|| {
                            let top = paint();
                            build_and_query::<FnvBuildHasher>(p, n, b, q).map(|_| used(top))
                        })??;
                        let bound = 6144 + 512 * log2(n as usize);
                        ensure!(u <= bound, "{} bytes of stack used on {} elements", u, n);
                        Ok(())
                    },
                ));
            }
        }
        #[cfg(feature = "C20")]
        "C20" => {
            let two = |n: u32| cat(&[&makes(n), &unions(n), &[Op::InUnion(0, n - 1), Op::InUnion(n - 1, 0), Op::Ext(vec![n - 1, 0], Hint::Exact), Op::Iterate(false), Op::Clear, Op::CloneAway, Op::CloneBack, Op::CloneFrom, Op::CloneUp, Op::Reserve(9)]]);
            for t in [few[0], few[2], few[3]] {
                js.push(explore(Hist::<K, Table>::new("two sets, all reachable pairs of structures, 2 elements", t, Obs::Both, two(2), ctors(), 3).refs(), bfs));
            }
            js.push(explore(Hist::<K, Table>::new("two sets, all reachable pairs of structures, 3 elements", few[0], Obs::Both, cat(&[&unions(3), &[Op::Make(0), Op::Make(2), Op::InUnion(0, 2), Op::Clear, Op::CloneAway, Op::CloneBack]]), vec![Op::New], 4), Mode::Bfs { max_states: if quick { 60_000 } else { 1_500_000 } }));
            for t in few.clone() {
                js.push(explore(Hist::<K, Table>::new("two sets, all histories", t, Obs::Both, two(3), vec![Op::New, Op::From(vec![0, 1, 2, 1], Hint::Exact)], 4), Mode::Words { depth: if quick { 3 } else { 4 } }));
                js.push(explore(Hist::<Tk, Table>::new("two sets of tracked elements, all histories", t, Obs::Both, two(3), vec![Op::New, Op::From(vec![0, 1, 2, 1], Hint::Exact)], 4), Mode::Words { depth: if quick { 2 } else { 3 } }));
                // a cleared set goes on like a new one
                js.push(explore(Hist::<K, Table>::new("clearing, all reachable structures", t, Obs::Both, cat(&[&makes(4), &unions(4), &[Op::InUnion(0, 3), Op::Clear, Op::Iterate(true), Op::Reserve(5)]]), ctors(), 5), bfs));
                let r = cat(&[&ctors(), &froms(4, if quick { 4 } else { 5 })]);
                js.push(explore(Hist::<K, Table>::new("every construction", t, Obs::Both, vec![Op::Union(0, 2), Op::Make(3), Op::ExtRef(vec![3, 0, 1], Hint::Exact), Op::Ext(vec![1, 3, 2, 2], Hint::Over), Op::Clear], r, 5).refs(), Mode::Words { depth: 2 }));
                let e: Vec<Op> = words(3, if quick { 3 } else { 4 }).into_iter().flat_map(|w| HINTS.iter().flat_map(move |h| [Op::Ext(w.clone(), *h), Op::ExtRef(w.clone(), *h)])).collect();
                js.push(explore(Hist::<K, Table>::new("every extension of every structure", t, Obs::Both, e, cat(&[&[Op::New], &makes(2), &unions(3)]), 4).refs(), Mode::Words { depth: 1 }));
            }
            js.push(explore(Hist::<String, RandomState>::new("two sets, all histories", few[0], Obs::Both, two(3), ctors(), 4), Mode::Words { depth: 2 }));
            js.push(explore(Hist::<&'static str, FnvBuildHasher>::new("two sets, all histories", few[0], Obs::Both, two(3), vec![Op::New], 4), Mode::Words { depth: if quick { 2 } else { 3 } }));
            js.push(explore(Hist::<K, Table>::new("repeated histories", few[2], Obs::Both, two(2), vec![Op::New], 4), Mode::Pump { len: if quick { 2 } else { 3 }, reps: 100 }));
            // deep structures of many elements: copied, then original and copy go on separately; or cleared and built again
            let ps: Vec<Prog> = programs(true).into_iter().filter(|p| !matches!(p, Prog::Periodic(v) if v.len() > 1)).collect();
            let ns: Vec<u32> = if quick { vec![33, 600, 2500, 17_000] } else { vec![33, 100, 300, 600, 1100, 2500, 5000, 10_001, 17_000, 70_000] };
            for (k, ps) in ps.chunks(ps.len() / 8 + 1).enumerate() {
                let (ps, ps2, ns, ns2) = (ps.to_vec(), ps.to_vec(), ns.clone(), ns.clone());
                js.push(cases(
                    format!("copying and clearing deep structures, part {}", k + 1),
                    ps.len() * ns.len() * 9,
                    move |i| format!("{:?}, {} elements, created {:?}, {}", ps2[i / 9 / ns2.len()], ns2[i / 9 % ns2.len()], BIRTHS[i % 3], ["clone", "clone_from", "clear"][i / 3 % 3]),
                    move |i| {
                        let (p, n, b) = (&ps[i / 9 / ns.len()], ns[i / 9 % ns.len()], BIRTHS[i % 3]);
                        let build = |d: &mut DisjointSet<u32, FnvBuildHasher>| {
                            let mut r = Ref::new(n as usize + 1);
                            p.run(n, &mut |x, y| {
                                d.union(x, y);
                                r.union(x, y)
                            });
                            (0..n).for_each(|k| d.make_set(k));
                            r
                        };
                        let mut d: DisjointSet<u32, FnvBuildHasher> = born(n, b);
                        let mut r = build(&mut d);
                        if i / 3 % 3 == 2 {
                            d.clear();
                            ensure!(d.is_empty() && d.len() == 0 && !d.contains(&0) && !d.in_union(&(n - 1), &0), "cleared set is not empty");
                            let mut r = build(&mut d);
                            return agree("rebuilt set", &mut d, &mut r, n, n, true);
                        }
                        let mut e: DisjointSet<u32, FnvBuildHasher> = if i / 3 % 3 == 0 {
                            d.clone()
                        } else {
                            let mut e = FastDisjointSet::new();
                            (0..n / 2 + 7).for_each(|k| e.union(k * 3, k));
                            e.clone_from(&d);
                            e
                        };
                        // both go on, differently, before they are asked
                        let mut r2 = Ref::new(n as usize + 1);
                        p.run(n, &mut |x, y| r2.union(x, y));
                        for k in 1..n {
                            if k % 97 == 5 {
                                e.union(k, k - 1);
                                r2.union(k, k - 1);
                            }
                            if k % 89 == 7 {
                                d.union(k - 1, k);
                                r.union(k - 1, k);
                            }
                        }
                        agree("copy", &mut e, &mut r2, n, n, true)?;
                        agree("original", &mut d, &mut r, n, n, true)
                    },
                ));
            }
            // sizes
            let ns: Vec<u32> = if quick { (0..=70).chain([127, 128, 129, 255, 256, 257, 449, 1000, 65537]).collect() } else { (0..=300).chain([448, 449, 1000, 5000, 65535, 65536, 65537, 200_000]).collect() };
            let n2 = ns.clone();
            js.push(cases(
                "clearing, copying and building many elements",
                ns.len() * 12,
                move |i| format!("{} elements, built in way {}, {}", n2[i / 12], i % 6, if i / 6 % 2 == 0 { "cleared" } else { "copied" }),
                move |i| {
                    let n = ns[i / 12];
                    let twice: Vec<u32> = (0..n).chain((0..n).rev()).collect();
                    let mut d: FastDisjointSet<u32> = match i % 6 {
                        0 => twice.iter().collect(),
                        1 => twice.iter().copied().collect(),
                        2 => Feed(twice.iter(), Hint::Unknown).collect(),
                        3 => {
                            let mut d = FastDisjointSet::new();
                            d.extend(&twice);
                            d
                        }
                        4 => {
                            let mut d = FastDisjointSet::with_capacity(n as usize / 2);
                            d.extend(Feed(twice.clone().into_iter(), Hint::Low));
                            d
                        }
                        _ => {
                            let mut d = FastDisjointSet::with_capacity_and_hasher(3, FnvBuildHasher::default());
                            twice.iter().for_each(|k| d.make_set(*k));
                            d
                        }
                    };
                    let mut r = Ref::new(n as usize + 1);
                    agree("built set", &mut d, &mut r, n, n, true)?;
                    for k in 1..n {
                        if k % 3 != 0 {
                            d.union(k, k / 2);
                            r.union(k, k / 2);
                        }
                    }
                    agree("united set", &mut d, &mut r, n, n, true)?;
                    if i / 6 % 2 == 0 {
                        d.clear();
                        ensure!(d.is_empty() && d.len() == 0, "cleared set has {} elements", d.len());
                        ensure!((0..n).all(|k| !d.contains(&k) && !d.in_union(&k, &0)), "cleared set contains an element");
                        ensure!(d.into_iter().next().is_none(), "cleared set has a group");
                        let mut r = Ref::new(n as usize + 1);
                        for k in (0..n).rev() {
                            d.make_set(k);
                        }
                        agree("refilled set", &mut d, &mut r, n, n, true)?;
                        for k in 2..n {
                            d.union(k - 2, k);
                            r.union(k - 2, k);
                        }
                        agree("united refilled set", &mut d, &mut r, n, n, true)
                    } else {
                        let mut e = d.clone();
                        for k in 1..n {
                            e.union(k, k - 1);
                        }
                        e.make_set(n + 5);
                        agree("original", &mut d, &mut r, n, n, true)?;
                        let mut f = d.clone();
                        d.clear();
                        agree("copy", &mut f, &mut r, n, n, true)?;
                        ensure!(e.len() == n as usize + 1 && (1..n).all(|k| e.in_union(&0, &k)) && !e.in_union(&0, &(n + 5)) && !f.contains(&(n + 5)), "first copy is wrong");
                        d.clone_from(&f);
                        agree("clone_from", &mut d, &mut r, n, n, true)
                    }
                },
            ));
        }
        _ => {}
    }
    js
}
/// Agreement with the reference on a linear number of pairs and, optionally, the partition.
fn agree<S: BuildHasher>(what: &str, d: &mut DisjointSet<u32, S>, r: &mut Ref, n: u32, members: u32, iter: bool) -> Res {
    if iter {
        let mut group_of: Vec<u32> = vec![u32::MAX; n as usize];
        let mut root_group: Vec<u32> = vec![u32::MAX; n as usize + 1];
        let mut total = 0;
        for (g, set) in d.into_iter().enumerate() {
            let mut root = None;
            for k in set {
                ensure!(*k < n && group_of[*k as usize] == u32::MAX, "{}: iteration shows {} twice", what, k);
                group_of[*k as usize] = g as u32;
                total += 1;
                let f = r.find(*k);
                match root {
                    None => {
                        ensure!(root_group[f as usize] == u32::MAX, "{}: iteration splits a subset", what);
                        root_group[f as usize] = g as u32;
                        root = Some(f);
                    }
                    Some(x) => ensure!(x == f, "{}: iteration puts {} in a group of another subset", what, k),
                }
            }
            ensure!(root.is_some(), "{}: empty group", what);
        }
        ensure!(total == members, "{}: iteration shows {} elements, expected {}", what, total, members);
    }
    ensure!(d.len() == members as usize && d.is_empty() == (members == 0), "{}: len() is {}, expected {}", what, d.len(), members);
    if members == n {
        let probes = [0, n / 3, n.saturating_sub(1)];
        for k in 0..n {
            ensure!(d.contains(&k), "{}: {} is missing", what, k);
            for p in [probes[0], probes[1], probes[2], k / 2, (k + 1) % n] {
                let w = r.find(k) == r.find(p);
                ensure!(d.in_union(&k, &p) == w, "{}: in_union({}, {}) is {}, expected {}", what, k, p, !w, w);
            }
        }
        ensure!(!d.contains(&n) && !d.in_union(&n, &0) && !d.in_union(&0, &n), "{}: unknown element is known", what);
    }
    Ok(())
}
fn program_check(p: &Prog, n: u32, b: Birth, iter: bool, fnv: bool) -> Res {
    fn go<S: Hs>(p: &Prog, n: u32, b: Birth, iter: bool) -> Res {
        let mut d: DisjointSet<u32, S> = born(n, b);
        let mut r = Ref::new(n as usize + 1);
        let mut members = vec![b != Birth::OnDemand; n as usize];
        p.run(n, &mut |a, b| {
            d.union(a, b);
            r.union(a, b);
            members[a as usize] = true;
            members[b as usize] = true;
        });
        for k in 0..n {
            ensure!(d.contains(&k) == members[k as usize], "contains({}) is {}", k, d.contains(&k));
            if !members[k as usize] {
                ensure!(!d.in_union(&k, &k), "unknown element {} is in union", k);
            }
        }
        let c = members.iter().filter(|x| **x).count() as u32;
        agree("set", &mut d, &mut r, n, c, iter)?;
        agree("set after queries", &mut d, &mut r, n, c, iter)
    }
    set_default(Table([0, 1, 2, 3, 4, 5, 6, 7]));
    if fnv {
        go::<RandomState>(p, n, b, iter)
    } else {
        go::<FnvBuildHasher>(p, n, b, iter)
    }
}
fn main() {
    main_with(jobs)
}
