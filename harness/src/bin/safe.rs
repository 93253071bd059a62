//! C37: small histories of counters, disjoint sets and intervals for execution under Miri.
//! `safe list quick|thorough OUT` (native) enumerates the reachable states of each object and writes one
//! history per transition; `safe run FILE` (under Miri) executes the histories it is given.
#![allow(dead_code, unused_variables, unused_mut, unreachable_code)]
use advanced_collections::counter::Counter;
use advanced_collections::disjoint_set::DisjointSet;
use advanced_collections::interval::{Interval, LowerBound, UpperBound};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::{HashMap, HashSet};
use std::fmt::{Debug, Display, Write};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::io::Write as _;
use std::ops::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---- user code ------------------------------------------------------------------------------------
thread_local! {
    /// Calls of user code until one panics.
    static FUSE: Cell<i32> = const { Cell::new(-1) };
    static BURNT: Cell<bool> = const { Cell::new(false) };
    /// Calls of comparisons of the types that do not keep their contract.
    static CALLS: Cell<u32> = const { Cell::new(0) };
    /// In which way.
    static LIE: Cell<usize> = const { Cell::new(0) };
}
fn burn() {
    let f = FUSE.with(|f| f.replace(f.get().saturating_sub(1).max(-1)));
    if f == 0 {
        BURNT.with(|b| b.set(true));
        std::panic::panic_any(())
    }
}
/// Makes operands: no panic here.
fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let fuse = FUSE.with(|f| f.replace(-1));
    let r = f();
    FUSE.with(|f| f.set(fuse));
    r
}
fn calls() -> u32 {
    CALLS.with(|c| c.replace((c.get() + 1) % 30))
}
#[derive(Default)]
struct H(u64);
impl Hasher for H {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0.rotate_left(7) ^ x as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        }
    }
}
type B = BuildHasherDefault<H>;

trait El: Clone + Eq + Hash + Ord + Debug + 'static {
    fn mk(n: i32) -> Self;
    fn touch(&self) -> u64;
    fn poke(&mut self) {
        self.touch();
    }
    /// Extends by reference; only where the elements can be copied.
    fn refs_c(_c: &mut Counter<Self, B>, _v: &[Self]) -> bool {
        false
    }
    fn refs_d(_c: &mut DisjointSet<Self, B>, _v: &[Self]) -> bool {
        false
    }
}
impl El for u32 {
    fn mk(n: i32) -> Self {
        n as u32
    }
    fn touch(&self) -> u64 {
        *self as u64
    }
    fn refs_c(c: &mut Counter<Self, B>, v: &[Self]) -> bool {
        c.extend(v.iter());
        true
    }
    fn refs_d(c: &mut DisjointSet<Self, B>, v: &[Self]) -> bool {
        c.extend(v.iter());
        true
    }
}
impl El for String {
    fn mk(n: i32) -> Self {
        "x".repeat(n as usize)
    }
    fn touch(&self) -> u64 {
        self.bytes().map(|b| b as u64).sum()
    }
}
impl El for () {
    fn mk(_: i32) -> Self {}
    fn touch(&self) -> u64 {
        0
    }
}
impl El for Option<Box<u8>> {
    fn mk(n: i32) -> Self {
        if n == 0 {
            None
        } else {
            Some(Box::new(n as u8))
        }
    }
    fn touch(&self) -> u64 {
        self.as_ref().map_or(0, |b| **b as u64)
    }
}

/// Every call of its traits and its destructor may panic.
#[derive(Debug)]
struct Boom(Box<i32>);
impl Clone for Boom {
    fn clone(&self) -> Self {
        burn();
        Boom(self.0.clone())
    }
}
impl Drop for Boom {
    fn drop(&mut self) {
        *self.0 += 100;
        burn();
    }
}
impl PartialEq for Boom {
    fn eq(&self, o: &Self) -> bool {
        burn();
        self.0 == o.0
    }
}
impl Eq for Boom {}
impl PartialOrd for Boom {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Boom {
    fn cmp(&self, o: &Self) -> Ordering {
        burn();
        self.0.cmp(&o.0)
    }
}
impl Hash for Boom {
    fn hash<S: Hasher>(&self, h: &mut S) {
        burn();
        self.0.hash(h)
    }
}
impl El for Boom {
    fn mk(n: i32) -> Self {
        Boom(Box::new(n))
    }
    fn touch(&self) -> u64 {
        *self.0 as u64
    }
    fn poke(&mut self) {
        *self.0 += 0
    }
}
impl Display for Boom {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        burn();
        write!(f, "{}", self.0)
    }
}

/// What the comparisons of a `Liar` answer, call after call.
#[derive(Clone, Copy, PartialEq)]
enum A {
    Honest,
    Reverse,
    Less,
    Greater,
    Equal,
    None,
}
const LIES: &[&[A]] = &[
    &[A::Honest, A::None, A::Honest, A::Honest, A::Equal, A::Greater],
    &[A::Honest, A::Reverse],
    &[A::Reverse, A::Honest, A::Honest],
    &[A::Less],
    &[A::Greater],
    &[A::Equal],
    &[A::None],
    &[A::Equal, A::Honest],
    &[A::Less, A::Less, A::Greater],
    &[A::Honest, A::Honest, A::Honest, A::Equal, A::Reverse],
    &[A::Honest],
];
fn answer() -> A {
    let l = LIES[LIE.with(|l| l.get())];
    l[calls() as usize % l.len()]
}
/// Equality, order and hash that contradict each other and themselves.
#[derive(Debug, Clone)]
struct Liar(Box<i32>);
impl PartialEq for Liar {
    fn eq(&self, o: &Self) -> bool {
        match answer() {
            A::Honest => self.0 == o.0,
            A::Reverse => self.0 != o.0,
            a => a == A::Equal,
        }
    }
}
impl Eq for Liar {}
impl PartialOrd for Liar {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        match answer() {
            A::Honest => self.0.partial_cmp(&o.0),
            A::Reverse => o.0.partial_cmp(&self.0),
            A::Less => Some(Ordering::Less),
            A::Greater => Some(Ordering::Greater),
            A::Equal => Some(Ordering::Equal),
            A::None => None,
        }
    }
}
impl Ord for Liar {
    fn cmp(&self, o: &Self) -> Ordering {
        match answer() {
            A::Honest | A::None => self.0.cmp(&o.0),
            A::Reverse => o.0.cmp(&self.0),
            A::Less => Ordering::Less,
            A::Greater => Ordering::Greater,
            A::Equal => Ordering::Equal,
        }
    }
}
impl Hash for Liar {
    fn hash<S: Hasher>(&self, h: &mut S) {
        match answer() {
            A::Honest => self.0.hash(h),
            A::Reverse => calls().hash(h),
            a => (a as i32).hash(h),
        }
    }
}
impl El for Liar {
    fn mk(n: i32) -> Self {
        Liar(Box::new(n))
    }
    fn touch(&self) -> u64 {
        *self.0 as u64
    }
}
impl Display for Liar {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
macro_rules! arithmetic {
    ($t:ident; $($tr:ident $f:ident $atr:ident $af:ident $w:ident),*) => {$(
        impl $tr for $t {
            type Output = $t;
            fn $f(self, o: $t) -> $t {
                burn();
                $t(Box::new((*self.0).$w(*o.0)))
            }
        }
        impl $atr for $t {
            fn $af(&mut self, o: $t) {
                *self.0 = (*self.0).$w(*o.0);
                burn();
            }
        }
    )*};
}
arithmetic!(Boom; Add add AddAssign add_assign wrapping_add, Sub sub SubAssign sub_assign wrapping_sub, Mul mul MulAssign mul_assign wrapping_mul, Div div DivAssign div_assign wrapping_div);
arithmetic!(Liar; Add add AddAssign add_assign wrapping_add, Sub sub SubAssign sub_assign wrapping_sub, Mul mul MulAssign mul_assign wrapping_mul, Div div DivAssign div_assign wrapping_div);
impl Neg for Boom {
    type Output = Boom;
    fn neg(self) -> Boom {
        burn();
        Boom(Box::new(-*self.0))
    }
}
impl Neg for Liar {
    type Output = Liar;
    fn neg(self) -> Liar {
        Liar(Box::new(-*self.0))
    }
}
/// An iterator that announces what it likes.
struct Lie<I>(I, (usize, Option<usize>));
impl<I: Iterator> Iterator for Lie<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        burn();
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}

// ---- objects --------------------------------------------------------------------------------------
trait Object {
    const OPS: &'static [&'static str];
    fn start(variant: usize) -> Self;
    /// Performs the operation; false if it makes no sense here.
    fn step(&mut self, op: usize) -> bool;
    /// Reads everything; the text identifies the state.
    fn view(&mut self) -> String;
}

struct C<T: El>(Counter<T, B>);
impl<T: El> C<T> {
    fn vs(v: &[i32]) -> Vec<T> {
        v.iter().map(|&n| T::mk(n)).collect()
    }
    fn of(v: &[i32]) -> Counter<T, B> {
        quiet(|| Self::vs(v).into_iter().collect())
    }
}
impl<T: El> Object for C<T> {
    const OPS: &'static [&'static str] = &[
        "push 0", "push 1", "push 2", "extend [1, 1, 3]", "extend, announces 3 of 1", "extend, announces none of 3", "extend by reference", "from owned", "from references", "from owned, announces 4 of 2", "+= [1, 2]", "+= &[1, 2]", "+", "+ &", "-= [0, 1]", "-= &[0, 1]", "-", "- &", "add itself by reference", "most_common", "into_most_common",
        "into_most_common, drop after 1", "clone", "clone_from, other of 3", "clone_from into other of 1", "clear", "remove 1", "entry of 2", "all counts huge", "count of 1 zero", "write through iterator", "hold all references", "owning iteration, drop after 1", "owning iteration, forget", "drain 1", "drain, forget", "retain odd", "reserve 9, shrink",
        "from_hashmap", "From map", "From map by reference", "compare", "Debug", "subtract from itself by reference", "from owned, announces exactly 1 of 3", "from references, announces exactly 1 of 3", "extend, announces exactly 1 of 3",
    ];
    fn start(v: usize) -> Self {
        C(match v {
            0 => Counter::new(),
            1 => Counter::with_capacity(5),
            2 => Counter::with_hasher(B::default()),
            3 => Counter::with_capacity_and_hasher(1, B::default()),
            4 => Self::of(&[0, 1, 1, 2, 3]),
            _ => {
                let mut c = Self::of(&[0, 1]);
                c.clear();
                c.extend(Self::vs(&[2, 1]));
                c
            }
        })
    }
    fn step(&mut self, op: usize) -> bool {
        let n = self.0.len();
        let c = &mut self.0;
        let take = |c: &mut Counter<T, B>| std::mem::replace(c, Counter::with_hasher(B::default()));
        match op {
            0..=2 => c.push(T::mk(op as i32)),
            3 => c.extend(Self::vs(&[1, 1, 3])),
            4 => c.extend(Lie(Self::vs(&[2]).into_iter(), (3, None))),
            5 => c.extend(Lie(Self::vs(&[4, 0, 1]).into_iter(), (0, Some(0)))),
            6 => return T::refs_c(c, &Self::vs(&[2, 2])),
            7 => *c = Self::of(&[0, 2, 0]),
            8 => *c = Self::vs(&[1, 2]).iter().collect(),
            9 => *c = Lie(Self::vs(&[1, 2]).into_iter(), (4, Some(1))).collect(),
            10 => *c += Self::of(&[1, 2]),
            11 => *c += &Self::of(&[1, 2]),
            12 => *c = take(c) + Self::of(&[1, 1]),
            13 => *c = take(c) + &Self::of(&[0]),
            14 => *c -= Self::of(&[0, 1]),
            15 => *c -= &Self::of(&[0, 1]),
            16 => *c = take(c) - Self::of(&[1, 2]),
            17 => *c = take(c) - &Self::of(&[2]),
            18 => {
                let o = c.clone();
                *c += &o;
                drop(o)
            }
            19 => {
                let l = c.most_common();
                for (k, n) in &l {
                    k.touch();
                }
                *c = l.into_iter().map(|x| x.0).collect()
            }
            20 => {
                for (mut k, _) in take(c).into_most_common() {
                    k.poke();
                    c.push(k)
                }
            }
            21 => drop(take(c).into_most_common().into_iter().next()),
            22 => *c = c.clone(),
            23 => c.clone_from(&Self::of(&[3, 4, 5])),
            24 => {
                let mut o = Self::of(&[3]);
                o.clone_from(c);
                for (k, _) in c.iter() {
                    k.touch();
                }
                *c = o
            }
            25 if n > 0 => c.clear(),
            26 => drop(c.remove(&T::mk(1))),
            27 => *c.entry(T::mk(2)).or_insert(4) += 1,
            28 if n > 0 => c.iter_mut().for_each(|(_, x)| *x = usize::MAX - 1),
            29 => {
                c.insert(T::mk(1), 0);
            }
            30 if n > 0 => {
                for (k, x) in &mut *c {
                    k.touch();
                    *x = (*x & 7) + 1
                }
            }
            31 if n > 0 => {
                let all: Vec<(&T, &usize)> = (&*c).into_iter().collect();
                let sum: u64 = all.iter().map(|(k, n)| k.touch().wrapping_add(**n as u64)).fold(0, u64::wrapping_add);
                let _ = (c.get(all[0].0), sum);
            }
            32 if n > 0 => drop(take(c).into_iter().next()),
            33 if n > 0 => {
                let mut i = take(c).into_iter();
                drop(i.next());
                std::mem::forget(i)
            }
            34 if n > 0 => drop(c.drain().next()),
            35 if n > 0 => {
                let mut d = c.drain();
                drop(d.next());
                std::mem::forget(d)
            }
            36 if n > 0 => c.retain(|k, x| k.touch() % 2 == 1 || *x > 2),
            37 => {
                c.reserve(9);
                c.shrink_to_fit()
            }
            38 => {
                let m: HashMap<T, usize, B> = take(c).into_iter().collect();
                *c = Counter::from_hashmap(m)
            }
            39 => {
                let m: HashMap<T, usize> = quiet(|| Self::vs(&[1, 4]).into_iter().zip(1..).collect());
                *c = Counter::from(m)
            }
            40 => {
                let m: HashMap<T, usize> = quiet(|| Self::vs(&[1, 4]).into_iter().zip(1..).collect());
                *c = Counter::from(&m)
            }
            41 => {
                let o = c.clone();
                let _ = (o == *c, o != Self::of(&[1]));
            }
            42 => {
                let _ = format!("{:?}", c);
            }
            43 => {
                let o = c.clone();
                *c -= &o
            }
            44 => *c = Lie(Self::vs(&[1, 2, 3]).into_iter(), (1, Some(1))).collect(),
            45 => *c = Lie(Self::vs(&[1, 2, 3]).iter(), (1, Some(1))).collect(),
            46 => c.extend(Lie(Self::vs(&[5, 6, 7]).into_iter(), (1, Some(1)))),
            _ => return false,
        }
        true
    }
    fn view(&mut self) -> String {
        #[cfg(miri)]
        {
            for (k, _) in self.0.iter() {
                k.touch();
            }
            return String::new();
        }
        let mut v: Vec<(u64, usize)> = self.0.iter().map(|(k, &n)| (k.touch(), n.min(5))).collect();
        v.sort_unstable();
        let mut s = String::new();
        for (k, n) in v {
            let _ = write!(s, "{}:{} ", k, n);
        }
        let _ = write!(s, "/{}", self.0.capacity());
        s
    }
}

struct D<T: El>(DisjointSet<T, B>);
impl<T: El> Object for D<T> {
    const OPS: &'static [&'static str] = &[
        "make_set 0", "make_set 1", "make_set 2", "union 0 1", "union 1 2", "union 2 3", "union 4 4", "union 3 0", "in_union 0 2", "in_union of both halves", "contains", "clear", "reserve 9", "extend [1, 5]", "extend, announces 3 of 1", "extend, announces none of 3", "extend by reference", "from owned", "from references", "from owned, announces 4 of 2", "clone",
        "clone_from, other of 3", "clone_from into other of 1", "iterate", "iterate, keep everything", "iterate, drop after 1", "iterate, forget after 1", "build a chain of 8", "drop", "Debug", "reserve 0", "join two pairs by their later members", "from owned, announces exactly 1 of 3", "from references, announces exactly 1 of 3", "extend, announces exactly 1 of 3",
    ];
    fn start(v: usize) -> Self {
        D(match v {
            0 => DisjointSet::new(),
            1 => DisjointSet::with_capacity(5),
            2 => DisjointSet::with_hasher(B::default()),
            3 => DisjointSet::with_capacity_and_hasher(1, B::default()),
            4 => {
                let mut d = DisjointSet::new();
                d.union(T::mk(1), T::mk(0));
                d.union(T::mk(3), T::mk(2));
                d.union(T::mk(2), T::mk(0));
                d.make_set(T::mk(4));
                d
            }
            _ => {
                let mut d: DisjointSet<T, B> = C::<T>::vs(&[0, 1, 2, 3]).into_iter().collect();
                d.clear();
                d.union(T::mk(2), T::mk(1));
                d
            }
        })
    }
    fn step(&mut self, op: usize) -> bool {
        let d = &mut self.0;
        let vs = C::<T>::vs;
        match op {
            0..=2 => d.make_set(T::mk(op as i32)),
            3 => d.union(T::mk(0), T::mk(1)),
            4 => d.union(T::mk(1), T::mk(2)),
            5 => d.union(T::mk(2), T::mk(3)),
            6 => d.union(T::mk(4), T::mk(4)),
            7 => d.union(T::mk(3), T::mk(0)),
            8 => {
                d.in_union(&T::mk(0), &T::mk(2));
            }
            9 => {
                let k = vs(&[0, 1, 2, 3, 4, 5]);
                for a in &k {
                    for b in &k {
                        d.in_union(a, b);
                    }
                }
            }
            10 => {
                let _ = (d.contains(&T::mk(1)), d.contains(&T::mk(7)), d.len(), d.is_empty());
            }
            11 => d.clear(),
            12 => d.reserve(9),
            13 => d.extend(vs(&[1, 5])),
            14 => d.extend(Lie(vs(&[2]).into_iter(), (3, None))),
            15 => d.extend(Lie(vs(&[4, 0, 1]).into_iter(), (0, Some(0)))),
            16 => return T::refs_d(d, &vs(&[2, 2])),
            17 => *d = vs(&[0, 2, 0]).into_iter().collect(),
            18 => *d = vs(&[1, 2]).iter().collect(),
            19 => *d = Lie(vs(&[1, 2]).into_iter(), (4, Some(1))).collect(),
            20 => *d = d.clone(),
            21 => {
                let mut o: DisjointSet<T, B> = quiet(|| vs(&[3, 4, 5]).into_iter().collect());
                quiet(|| o.union(T::mk(5), T::mk(4)));
                d.clone_from(&o);
                for s in &mut o {
                    for x in s {
                        x.touch();
                    }
                }
            }
            22 => {
                let mut o: DisjointSet<T, B> = quiet(|| vs(&[3]).into_iter().collect());
                o.clone_from(d);
                for s in &mut *d {
                    for x in s {
                        x.touch();
                    }
                }
                *d = o
            }
            23 => {
                for s in &mut *d {
                    for x in s {
                        x.touch();
                    }
                }
            }
            24 => {
                let sets: Vec<Vec<&T>> = (&mut *d).into_iter().map(|s| s.collect()).collect();
                for s in sets.iter().rev() {
                    for x in s {
                        x.touch();
                    }
                }
            }
            25 => {
                let mut i = (&mut *d).into_iter();
                let first = i.next();
                drop(i);
                for x in first.into_iter().flatten() {
                    x.touch();
                }
            }
            26 => {
                let mut i = (&mut *d).into_iter();
                let first = i.next();
                std::mem::forget(i);
                std::mem::forget(first);
            }
            27 => {
                for k in 0..8 {
                    d.union(T::mk(k), T::mk(k + 1))
                }
            }
            28 => *d = DisjointSet::default(),
            29 => {
                let _ = format!("{:?}", d);
            }
            30 => d.reserve(0),
            31 => {
                d.union(T::mk(1), T::mk(0));
                d.union(T::mk(3), T::mk(2));
                d.union(T::mk(2), T::mk(0))
            }
            32 => *d = Lie(vs(&[1, 2, 3]).into_iter(), (1, Some(1))).collect(),
            33 => *d = Lie(vs(&[1, 2, 3]).iter(), (1, Some(1))).collect(),
            34 => d.extend(Lie(vs(&[5, 6, 7]).into_iter(), (1, Some(1)))),
            _ => return false,
        }
        true
    }
    fn view(&mut self) -> String {
        #[cfg(miri)]
        {
            for x in (&mut self.0).into_iter().flatten() {
                x.touch();
            }
            return String::new();
        }
        let mut v: Vec<Vec<u64>> = (&mut self.0)
            .into_iter()
            .map(|s| {
                let mut v: Vec<u64> = s.map(|x| x.touch()).collect();
                v.sort_unstable();
                v
            })
            .collect();
        v.sort_unstable();
        let mut s = format!("{:?} {}", v, self.0.len());
        {
            // the bookkeeping is part of the state; iterating has flattened its trees, copies of it have the same
            let d = format!("{:?}", self.0);
            if let Some(i) = d.find("data_by_id") {
                s += &d[i..]
            }
        }
        s
    }
}

trait Num: El + Display + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self> + Neg<Output = Self> + AddAssign + SubAssign + MulAssign + DivAssign {}
impl Num for Boom {}
impl Num for Liar {}
struct I<T: Num>([Interval<T>; 2]);
impl<T: Num> I<T> {
    fn iv(lo: i32, lc: bool, up: i32, uc: bool) -> Interval<T> {
        Interval::new(T::mk(lo), lc, T::mk(up), uc)
    }
}
impl<T: Num> Object for I<T> {
    const OPS: &'static [&'static str] = &[
        "= [0, 2)", "= (1, 3]", "= (3, 5)", "= [2, 2]", "= single", "= empty", "= from bounds", "= malformed", "= malformed, equal", "= malformed bounds", "swap both", "clone", "clone_from", "into_intersection", "intersection", "into_span", "span", "into_merged", "merge", "into_merged with itself", "compare both", "compare to a value", "contains",
        "read bounds", "into_tuple and back", "into_bounds and back", "+ 1", "- 1", "* -1", "/ 2", "/ 0", "+= 1", "-= 1", "*= -1", "/= 2", "neg", "Display", "Debug and hash", "bounds: compare", "bounds: arithmetic", "bounds: value arithmetic", "is_*", "max of both",
    ];
    fn start(v: usize) -> Self {
        match v {
            0 => I([Interval::empty(), Interval::empty()]),
            1 => I([Self::iv(0, true, 4, false), Self::iv(2, false, 6, true)]),
            2 => I([Self::iv(0, true, 4, false), Self::iv(1, false, 2, true)]),
            3 => I([Self::iv(0, true, 1, false), Self::iv(1, false, 2, true)]),
            _ => I([Self::iv(0, true, 1, false), Interval::empty()]),
        }
    }
    fn step(&mut self, op: usize) -> bool {
        let [a, b] = &mut self.0;
        let take = |a: &mut Interval<T>| std::mem::replace(a, Interval::empty());
        let m = T::mk;
        match op {
            0 => *a = Interval::lower_closed(m(0), m(2)),
            1 => *a = Interval::upper_closed(m(1), m(3)),
            2 => *a = Interval::open(m(3), m(5)),
            3 => *a = Interval::closed(m(2), m(2)),
            4 => *a = Interval::single(m(1)),
            5 => *a = Interval::empty(),
            6 => *a = Interval::from_bounds(LowerBound::new(m(2), false), UpperBound::new(m(4), true)),
            7 => *a = Self::iv(3, true, 2, true),
            8 => *a = Self::iv(3, true, 3, false),
            9 => *a = Interval::from_bounds(LowerBound::new(m(5), true), UpperBound::new(m(4), true)),
            10 => std::mem::swap(a, b),
            11 => *b = a.clone(),
            12 => b.clone_from(a),
            13 => *a = take(a).into_intersection(b.clone()),
            14 => a.intersection(b.clone()),
            15 => *a = take(a).into_span(b.clone()),
            16 => a.span(b.clone()),
            17 => {
                match take(a).into_merged(take(b)) {
                    Ok(x) => *a = x,
                    Err((x, y)) => {
                        *a = y;
                        *b = x
                    }
                };
            }
            18 => {
                if let Err(x) = a.merge(take(b)) {
                    *b = x
                }
            }
            19 => {
                let o = a.clone();
                if let Ok(x) = take(a).into_merged(o) {
                    *a = x
                }
            }
            20 => {
                let _ = (*a == *b, *a < *b, *a <= *b, *a > *b, *a >= *b, (*a).partial_cmp(&*b), a.can_be_merged(b), a.intersects(b), a.contains_interval(b));
            }
            21 => {
                let v = m(2);
                let _ = (*a == v, *a < v, *a <= v, *a > v, *a >= v, (*a).partial_cmp(&v));
            }
            22 => {
                let _ = (a.contains_val(&m(2)), b.contains_val(&m(5)), b.contains_interval(a));
            }
            23 => {
                let (l, u, x) = (a.lower(), a.upper(), a.bounds());
                if let (Some(l), Some(u), Some((x, y))) = (l, u, x) {
                    let _ = (l.val().touch(), u.val().touch(), x.val().touch(), y.val().touch(), l.is_separated_from(u), u.is_separated_from(l));
                }
            }
            24 => match take(a).into_tuple() {
                None => return false,
                Some((l, lc, u, uc)) => *a = Interval::new(l, lc, u, uc),
            },
            25 => match take(a).into_bounds() {
                None => return false,
                Some((l, u)) => *a = Interval::from_bounds(l, u),
            },
            26 => *a = take(a) + m(1),
            27 => *a = take(a) - m(1),
            28 => *a = take(a) * m(-1),
            29 => *a = take(a) / m(2),
            30 => *a = take(a) / m(0),
            31 => *a += m(1),
            32 => *a -= m(1),
            33 => *a *= m(-1),
            34 => *a /= m(2),
            35 => *a = -take(a),
            36 => {
                let _ = a.to_string();
            }
            37 => {
                let mut h = H(0);
                a.hash(&mut h);
                let _ = (format!("{:?}", a), h.finish());
            }
            38 => {
                let (Some((l, u)), Some((x, y))) = (a.bounds(), b.bounds()) else { return false };
                let v = m(2);
                let _ = (l.cmp(x), u.cmp(y), l.partial_cmp(x), l.partial_cmp(y), u.partial_cmp(x), u.partial_cmp(y), l == x, *l == v, *u == v, *l < v, *l >= v, *u <= v, *u > v, l.partial_cmp(&v), u.partial_cmp(&v));
            }
            39 => {
                let Some((l, u)) = take(a).into_bounds() else { return false };
                let (mut l, mut u) = ((l + m(1)) * m(1), u + m(2) - m(1));
                l += m(1);
                l -= m(1);
                u *= m(1);
                u /= m(1);
                *a = Interval::from_bounds(l / m(1), u)
            }
            40 => {
                let (Some((l, _)), Some((_, y))) = (a.clone().into_bounds(), b.clone().into_bounds()) else { return false };
                let (mut l, mut u) = (l * m(2) / m(1), y);
                l *= m(3);
                l /= m(2);
                u += m(1);
                u -= m(2);
                *b = Interval::from_bounds(l, u)
            }
            41 => {
                let _ = (a.is_empty(), a.is_single(), a.is_lower_closed(), a.is_upper_closed());
            }
            42 => {
                let (Some((l, u)), Some((x, y))) = (a.clone().into_bounds(), b.clone().into_bounds()) else { return false };
                *a = Interval::from_bounds(l.max(x), u.max(y))
            }
            _ => return false,
        }
        true
    }
    fn view(&mut self) -> String {
        #[cfg(miri)]
        {
            for i in &self.0 {
                let _ = (i.lower().map(|b| b.val().touch()), i.upper().map(|b| b.val().touch()));
            }
            return String::new();
        }
        let mut s = String::new();
        for i in &self.0 {
            match i.bounds() {
                None => s += "- ",
                Some((l, u)) => {
                    let c = |n: u64| (n as i32).clamp(-3, 8);
                    let _ = write!(s, "{}{} {}{} ", c(l.val().touch()), l.is_closed(), c(u.val().touch()), u.is_closed());
                }
            }
        }
        s
    }
}

// ---- exploration ------------------------------------------------------------------------------------
/// Runs the history `word` from constructor `start`; an element is `operation + 64 * k`, k > 0: the k-th call of user code
/// in it panics. None: some operation makes no sense (or is over before its k-th call).
fn go<O: Object>(start: usize, word: &[usize]) -> Option<String> {
    FUSE.with(|f| f.set(-1));
    // an honest start
    LIE.with(|f| f.set(LIES.len() - 1));
    let mut o = O::start(start % 8);
    CALLS.with(|f| f.set(0));
    LIE.with(|f| f.set(start / 8));
    for &w in word {
        let (op, k) = (w % 64, w / 64);
        FUSE.with(|f| f.set(k as i32 - 1));
        BURNT.with(|b| b.set(false));
        let r = catch_unwind(AssertUnwindSafe(|| o.step(op)));
        FUSE.with(|f| f.set(-1));
        if k > 0 && !BURNT.with(|b| b.get()) || matches!(r, Ok(false)) {
            return None;
        }
        if r.is_err() {
            // what is left can be used
            let _ = catch_unwind(AssertUnwindSafe(|| o.view()));
        }
    }
    // a panic is no undefined behaviour (what may panic is decided elsewhere)
    let mut s = catch_unwind(AssertUnwindSafe(|| o.view())).unwrap_or_default();
    #[cfg(not(miri))]
    let _ = write!(s, " {}", CALLS.with(|c| c.get()));
    Some(s)
}
struct Kind {
    name: &'static str,
    ops: &'static [&'static str],
    go: fn(usize, &[usize]) -> Option<String>,
    starts: &'static [usize],
    /// Calls of user code that panic, and states expanded, quick and thorough.
    faults: [usize; 2],
    states: [usize; 2],
}
const fn kind<O: Object>(name: &'static str, starts: &'static [usize], faults: [usize; 2], states: [usize; 2]) -> Kind {
    Kind { name, ops: O::OPS, go: go::<O>, starts, faults, states }
}
const ALL: &[usize] = &[0, 1, 2, 3, 4, 5];
/// The same constructor with every way of lying.
const fn lies(start: usize) -> [usize; LIES.len() - 1] {
    let mut a = [0; LIES.len() - 1];
    let mut i = 0;
    while i < a.len() {
        a[i] = start + 8 * i;
        i += 1;
    }
    a
}
const LIARS4: &[usize] = &lies(4);
const LIARS1: &[usize] = &lies(1);
const KINDS: &[Kind] = &[
    kind::<C<String>>("counter of String", ALL, [0, 0], [14, 200]),
    kind::<C<Boom>>("counter of panicking keys", &[4, 5], [8, 40], [2, 12]),
    kind::<C<Liar>>("counter of inconsistent keys", LIARS4, [0, 0], [10, 150]),
    kind::<D<String>>("disjoint set of String", ALL, [0, 0], [16, 120]),
    kind::<D<Boom>>("disjoint set of panicking keys", &[4, 5], [8, 40], [2, 16]),
    kind::<D<Liar>>("disjoint set of inconsistent keys", LIARS4, [0, 0], [10, 150]),
    kind::<I<Boom>>("interval of panicking values", &[1, 2, 3, 4, 0], [8, 40], [4, 40]),
    kind::<I<Liar>>("interval of inconsistent values", LIARS1, [0, 0], [14, 300]),
    kind::<C<u32>>("counter of u32", &[0, 4], [0, 0], [0, 60]),
    kind::<C<()>>("counter of ()", &[0, 4], [0, 0], [0, 60]),
    kind::<C<Option<Box<u8>>>>("counter of Option<Box<u8>>", &[0, 4], [0, 0], [0, 60]),
    kind::<D<u32>>("disjoint set of u32", &[0, 4], [0, 0], [0, 60]),
    kind::<D<()>>("disjoint set of ()", &[0, 4], [0, 0], [0, 60]),
    kind::<D<Option<Box<u8>>>>("disjoint set of Option<Box<u8>>", &[0, 4], [0, 0], [0, 60]),
];
/// Breadth-first search over the states of every object, one history per transition.
fn list(tier: usize, path: &str) {
    let mut out = std::fs::File::create(path).unwrap();
    let mut trying = std::fs::File::create(format!("{}.trying", path)).unwrap();
    for (t, k) in KINDS.iter().enumerate() {
        let mut seen: HashSet<String> = HashSet::new();
        let mut front: Vec<(usize, Vec<usize>)> = vec![];
        let mut transitions = 0;
        // whether the history makes sense: its state
        let mut run = |s: usize, w: &[usize]| {
            use std::io::{Seek, SeekFrom};
            let w2: Vec<String> = w.iter().map(|x| x.to_string()).collect();
            let line = format!("{} {} {}\n", t, s, w2.join(","));
            trying.seek(SeekFrom::Start(0)).unwrap();
            trying.write_all(line.as_bytes()).unwrap();
            trying.set_len(line.len() as u64).unwrap();
            let r = (k.go)(s, w);
            if r.is_some() {
                out.write_all(line.as_bytes()).unwrap();
            }
            r
        };
        if k.states[tier] == 0 {
            continue;
        }
        for &s in k.starts {
            let r = run(s, &[]).unwrap();
            if seen.insert(r) {
                front.push((s, vec![]));
            }
        }
        let mut i = 0;
        while i < front.len() && i < k.states[tier] {
            let (s, w) = front[i].clone();
            for op in 0..k.ops.len() {
                for f in 0..=k.faults[tier] {
                    let mut w = w.clone();
                    w.push(op + 64 * f);
                    match run(s, &w) {
                        Some(r) => {
                            transitions += 1;
                            if seen.insert(r) {
                                front.push((s, w));
                            }
                        }
                        // makes no sense, or is over before its `f`-th call of user code
                        None => break,
                    }
                }
            }
            i += 1;
        }
        println!("{}\t{}\t{}\t{}\t{}", k.name, seen.len(), i, transitions, i == front.len());
    }
}
fn show(line: &str) -> String {
    let p: Vec<&str> = line.split(' ').collect();
    let k = &KINDS[p[0].parse::<usize>().unwrap()];
    let start: usize = p[1].parse().unwrap();
    let ops: Vec<String> = p[2].split(',').filter(|s| !s.is_empty()).map(|o| o.parse().unwrap()).map(|o: usize| format!("{}{}", k.ops[o % 64], if o >= 64 { format!(" (call {} of user code panics)", o / 64) } else { String::new() })).collect();
    format!("{}, constructor {}{}: {}", k.name, start % 8, if start >= 8 { format!(" (way of lying {})", start / 8) } else { String::new() }, ops.join("; "))
}
/// Executes every history of the file; interpreted, so as little work as possible around it.
fn execute(path: &str, f: fn(usize, usize, &[usize])) {
    extern "C" {
        fn write(fd: i32, p: *const u8, n: usize) -> isize;
    }
    let say = |b: &[u8]| {
        let _ = unsafe { write(1, b.as_ptr(), b.len()) };
    };
    let text = std::fs::read(path).unwrap();
    let (mut i, mut numbers) = (0, Vec::with_capacity(16));
    while i < text.len() {
        let (mut n, mut digits, from) = (0, false, i);
        numbers.clear();
        loop {
            let c = text[i];
            i += 1;
            if c >= b'0' && c <= b'9' {
                n = n * 10 + (c - b'0') as usize;
                digits = true;
            } else {
                if digits {
                    numbers.push(n)
                }
                n = 0;
                digits = false;
                if c == b'\n' {
                    break;
                }
            }
        }
        say(b"at ");
        say(&text[from..i]);
        f(numbers[0], numbers[1], &numbers[2..]);
    }
    say(b"finished\n");
}
fn main() {
    std::panic::set_hook(Box::new(|_| FUSE.with(|f| f.set(-1))));
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "list" => list((a[2] != "quick") as usize, &a[3]),
        "show" => println!("{}", show(&a[2])),
        _ => execute(&a[2], |t, s, w| {
            let _ = (KINDS[t].go)(s, w);
        }),
    }
}
