//! C36: memory held by a collection, and memory taken during an operation, after every operation of every history.
#![allow(dead_code)]
use advanced_collections::circular_buffer::CircularBuffer as Cb;
use advanced_collections::counter::Counter;
use advanced_collections::disjoint_set::DisjointSet;
use fnv::FnvBuildHasher;
use mc::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashMap;
use std::hint::black_box;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {{ mc::obs(); if !($c) { return Err(format!($($a)*)); } }};
}

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
struct Counting;
fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + n);
        let _ = PEAK.try_with(|p| p.set(p.get().max(l.get())));
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

/// What is known about the collection: the bytes it holds and the sizes that justify them.
#[derive(Default)]
struct Acc {
    held: i64,
    /// largest number of elements so far: held, reserved, or announced by an iterator
    most: usize,
    fresh: u32,
}
impl Acc {
    /// Runs one operation; everything it needs is created and dropped within. Returns the memory it took on the way.
    fn run(&mut self, f: impl FnOnce(&mut u32)) -> i64 {
        let l = LIVE.with(|l| l.get());
        PEAK.with(|p| p.set(l));
        f(&mut self.fresh);
        self.held += LIVE.with(|l| l.get()) - l;
        PEAK.with(|p| p.get()) - l
    }
}
trait Coll: Sized + Send + Sync + 'static {
    const NAME: &'static str;
    /// name, operation, elements announced or asked for
    fn ops() -> Vec<(&'static str, fn(&mut Self, &mut u32), usize)>;
    fn empty() -> Self;
    fn len(&self) -> usize;
    /// number of elements that memory may be held for
    fn room(&self, most: usize) -> usize;
    /// bytes per element, bytes in any case
    fn rate() -> (usize, usize);
}
type Ops<C> = Vec<(&'static str, fn(&mut C, &mut u32), usize)>;

struct Mem<C: Coll> {
    ops: Ops<C>,
    what: &'static str,
    roots: Vec<Vec<u16>>,
}
impl<C: Coll> Mem<C> {
    fn new(what: &'static str, roots: &[&[&str]]) -> Self {
        let ops = C::ops();
        let find = |n: &&str| ops.iter().position(|o| o.0 == *n).expect("root") as u16;
        let roots = roots.iter().map(|r| r.iter().map(find).collect()).collect();
        Mem { ops, what, roots }
    }
}
struct St<C> {
    c: Option<C>,
    acc: Acc,
}
impl<C: Coll> Scn for Mem<C> {
    type St = St<C>;
    fn label(&self) -> String {
        format!("memory of {}, {}", C::NAME, self.what)
    }
    fn nops(&self) -> usize {
        self.ops.len()
    }
    fn op_str(&self, op: u16) -> String {
        self.ops[op as usize].0.to_string()
    }
    fn roots(&self) -> Vec<Vec<u16>> {
        self.roots.clone()
    }
    fn init(&self) -> St<C> {
        let mut acc = Acc { fresh: 10, ..Default::default() };
        let mut c = None;
        acc.run(|_| c = Some(C::empty()));
        St { c, acc }
    }
    fn step(&self, s: &mut St<C>, op: u16) -> Step {
        let (name, f, n) = self.ops[op as usize];
        let c = s.c.as_mut().unwrap();
        let before = c.len().max(c.room(s.acc.most));
        let took = s.acc.run(|fresh| f(c, fresh));
        s.acc.most = s.acc.most.max(c.len()).max(n);
        let room = c.room(s.acc.most);
        let (per, any) = C::rate();
        ensure!(s.acc.held as usize <= per * (room + 4) + any, "{} bytes are held after {}, for {} elements and room for {}", s.acc.held, name, c.len(), room);
        let size = before.max(room).max(n);
        ensure!(took as usize <= 5 * (per * (size + 4) + any), "{} takes {} bytes on the way, with at most {} elements involved", name, took, size);
        Ok(Flow::Go)
    }
    fn key(&self, s: &St<C>) -> Vec<u64> {
        vec![s.acc.held as u64, s.c.as_ref().unwrap().len() as u64]
    }
    fn check(&self, _: &mut St<C>) -> Res {
        Ok(())
    }
    fn end(&self, mut s: St<C>) -> Res {
        let c = s.c.take();
        s.acc.run(|_| drop(c));
        ensure!(s.acc.held == 0, "{} bytes are still allocated after the end of the collection", s.acc.held);
        Ok(())
    }
}
fn jobs_for<C: Coll>(quick: bool, roots: &[&[&str]]) -> Vec<Box<dyn Job>> {
    vec![
        explore(Mem::<C>::new("all short histories", roots), Mode::Words { depth: if quick { 3 } else { 4 } }),
        explore(Mem::<C>::new("repeated histories", roots), Mode::Pump { len: 2, reps: if quick { 120 } else { 1500 } }),
        explore(Mem::<C>::new("very long histories", &[&[]]), Mode::Pump { len: 1, reps: if quick { 3000 } else { 30_000 } }),
    ]
}

// ---- circular buffer --------------------------------------------------------------------------------
trait Elem: Clone + Ord + Send + Sync + 'static {
    const NAME: &'static str;
    fn mk(x: u32) -> Self;
}
impl Elem for u32 {
    const NAME: &'static str = "a circular buffer of u32";
    fn mk(x: u32) -> u32 {
        x
    }
}
impl Elem for [u64; 8] {
    const NAME: &'static str = "a circular buffer of large elements";
    fn mk(x: u32) -> [u64; 8] {
        [x as u64; 8]
    }
}
fn v<T: Elem>(n: usize) -> Vec<T> {
    (0..n as u32).map(T::mk).collect()
}
impl<T: Elem> Coll for Cb<T> {
    const NAME: &'static str = T::NAME;
    fn empty() -> Self {
        Cb::new(3)
    }
    fn len(&self) -> usize {
        Cb::len(self)
    }
    fn room(&self, _: usize) -> usize {
        self.capacity()
    }
    fn rate() -> (usize, usize) {
        (2 * std::mem::size_of::<T>(), 300)
    }
    fn ops() -> Ops<Self> {
        vec![
            ("push_back", |b, _| b.push_back(T::mk(1)), 0),
            ("push_front", |b, _| b.push_front(T::mk(2)), 0),
            ("pop_back", |b, _| drop(b.pop_back()), 0),
            ("pop_front", |b, _| drop(b.pop_front()), 0),
            ("clear", |b, _| b.clear(), 0),
            ("linearize", |b, _| drop(b.linearize().len()), 0),
            ("reverse", |b, _| b.reverse(), 0),
            ("swap", |b, _| if !b.is_empty() { b.swap(0, b.len() - 1) }, 0),
            ("resize to 0", |b, _| b.resize(0), 0),
            ("resize to 2", |b, _| b.resize(2), 0),
            ("resize to 7", |b, _| b.resize(7), 0),
            ("resize to 700", |b, _| b.resize(700), 0),
            ("resize by one more", |b, _| b.resize(b.capacity() % 1000 + 1), 0),
            ("resize to the length", |b, _| b.resize(b.len()), 0),
            ("extend by 3", |b, _| b.extend(v::<T>(3)), 3),
            ("extend by 900", |b, _| b.extend(v::<T>(900)), 900),
            ("extend by 3 references", |b, _| b.extend(v::<T>(3).iter()), 3),
            ("append", |b, _| b.append(&mut v::<T>(20).into_iter().collect()), 20),
            ("append to another", |b, _| { let mut o = Cb::new(20); o.append(b) }, 20),
            ("drain", |b, _| drop(b.drain().map(|x| black_box(x)).count()), 0),
            ("start to drain", |b, _| drop(b.drain().next()), 0),
            ("continue as clone", |b, _| *b = b.clone(), 0),
            ("clone", |b, _| drop(b.clone()), 0),
            ("clone_from", |b, _| { let o = b.clone(); b.push_back(T::mk(5)); b.clone_from(&o) }, 0),
            ("by-value iteration", |b, _| drop(std::mem::replace(b, Cb::new(3)).into_iter().nth(1)), 0),
            ("iteration", |b, _| drop(black_box(b.iter().max().cloned())), 0),
            ("comparison", |b, _| { let o = b.clone(); black_box((*b == o, b.cmp(&&mut o.clone()))); }, 0),
            ("building from 100", |b, _| *b = v::<T>(100).into_iter().collect(), 100),
            ("building from 100 references", |b, _| *b = v::<T>(100).iter().collect(), 100),
            ("building from 100 without a hint", |b, _| *b = v::<T>(200).into_iter().enumerate().filter(|x| x.0 % 2 == 0).map(|x| x.1).collect(), 200),
            ("building from a vector", |b, _| *b = Cb::from(v::<T>(5)), 5),
            ("showing", |b, _| drop(format!("{:?}", b)), 0),
        ]
    }
}

// ---- counter ----------------------------------------------------------------------------------------
type C = Counter<u32, FnvBuildHasher>;
fn c(r: std::ops::Range<u32>) -> C {
    r.collect()
}
impl Coll for C {
    const NAME: &'static str = "a counter";
    fn empty() -> Self {
        C::default()
    }
    fn len(&self) -> usize {
        HashMap::len(self)
    }
    fn room(&self, most: usize) -> usize {
        most
    }
    fn rate() -> (usize, usize) {
        (160, 600)
    }
    fn ops() -> Ops<Self> {
        vec![
            ("push(0)", |x, _| x.push(0), 0),
            ("push(1)", |x, _| x.push(1), 0),
            ("push(0) 20000 times", |x, _| (0..20_000).for_each(|_| x.push(0)), 0),
            ("push of something new", |x, f| { x.push(*f); *f += 1 }, 0),
            ("extend by 3", |x, _| x.extend(0..3), 3),
            ("extend by 3 references", |x, _| x.extend([2u32, 0, 1].iter()), 3),
            ("extend by 500", |x, _| x.extend(1000..1500), 500),
            ("extend by 500 equal ones without a hint", |x, _| x.extend((0..500).filter(|i| black_box(*i) < 1000).map(|_| 3)), 0),
            ("extend by nothing", |x, _| x.extend(0..0), 0),
            ("+=", |x, _| *x += c(0..4), 4),
            ("+= by reference", |x, _| *x += &c(0..4), 4),
            ("+", |x, _| *x = std::mem::take(x) + c(0..4), 4),
            ("+ by reference", |x, _| *x = std::mem::take(x) + &c(0..4), 4),
            ("+= itself", |x, _| { let o = x.clone(); if o.values().all(|n| *n < 1 << 40) { *x += o } }, 0),
            ("-=", |x, _| *x -= c(0..4), 4),
            ("-= by reference", |x, _| *x -= &c(0..4), 4),
            ("-", |x, _| *x = std::mem::take(x) - c(0..4), 4),
            ("- by reference", |x, _| *x = std::mem::take(x) - &c(0..4), 4),
            ("-= many others", |x, _| *x -= &c(500_000..500_300), 300),
            ("-= all", |x, _| { let o = x.clone(); *x -= &o }, 0),
            ("most_common", |x, _| drop(x.most_common()), 0),
            ("into_most_common", |x, _| drop(x.clone().into_most_common()), 0),
            ("continue as clone", |x, _| *x = x.clone(), 0),
            ("clone_from", |x, _| { let o = x.clone(); x.push(9); x.clone_from(&o) }, 0),
            ("clear", |x, _| x.clear(), 0),
            ("iteration", |x, _| drop(black_box((&*x).into_iter().map(|y| *y.1).max())), 0),
            ("by-value iteration", |x, _| drop(black_box(x.clone().into_iter().count())), 0),
            ("mutable iteration", |x, _| (&mut *x).into_iter().for_each(|y| *y.1 += 1), 0),
            ("comparison", |x, _| drop(black_box(*x == x.clone())), 0),
            ("lookups", |x, _| drop(black_box((x.get(&1).copied(), x.get(&77_777).copied()))), 0),
            ("removal", |x, f| drop(x.remove(&f.saturating_sub(1))), 0),
            ("building by value", |x, _| *x = (0..40).collect(), 40),
            ("building by reference", |x, _| *x = [0u32; 40].iter().collect(), 40),
            ("conversion from a map", |x, _| *x = C::from((0..40u32).map(|k| (k, 2usize)).collect::<HashMap<u32, usize>>()), 40),
            ("showing", |x, _| drop(format!("{:?}", x)), 0),
        ]
    }
}

// ---- disjoint set -----------------------------------------------------------------------------------
type D = DisjointSet<u32, FnvBuildHasher>;
impl Coll for D {
    const NAME: &'static str = "a disjoint set";
    fn empty() -> Self {
        D::default()
    }
    fn len(&self) -> usize {
        DisjointSet::len(self)
    }
    fn room(&self, most: usize) -> usize {
        most
    }
    fn rate() -> (usize, usize) {
        (280, 600)
    }
    fn ops() -> Ops<Self> {
        vec![
            ("make_set(0)", |x, _| x.make_set(0), 0),
            ("make_set of something new", |x, f| { x.make_set(*f); *f += 1 }, 0),
            ("union(0, 1)", |x, _| x.union(0, 1), 0),
            ("union(1, 1)", |x, _| x.union(1, 1), 0),
            ("union(2, 0)", |x, _| x.union(2, 0), 0),
            ("union of something new", |x, f| { x.union(*f, 0); *f += 1 }, 0),
            ("union with something new", |x, f| { x.union(1, *f); *f += 1 }, 0),
            ("union of two new ones", |x, f| { x.union(*f, *f + 1); *f += 2 }, 0),
            ("unions of everything so far", |x, f| (1..*f % 3000).for_each(|i| if x.contains(&i) { x.union(i, 0) }), 0),
            ("in_union of two", |x, _| drop(black_box(x.in_union(&0, &2))), 0),
            ("in_union of unknown ones", |x, _| drop(black_box((x.in_union(&0, &70_000), x.in_union(&80_000, &90_000)))), 0),
            ("queries of everything so far", |x, f| (1..*f % 3000).for_each(|i| drop(black_box(x.in_union(&i, &(i - 1))))), 0),
            ("contains", |x, _| drop(black_box((x.contains(&0), x.contains(&70_000)))), 0),
            ("extend by 3", |x, _| x.extend(0..3), 3),
            ("extend by 3 references", |x, _| x.extend([2u32, 0, 1].iter()), 3),
            ("extend by 300", |x, _| x.extend(1000..1300), 300),
            ("extend by 500 equal ones without a hint", |x, _| x.extend((0..500).filter(|i| black_box(*i) < 1000).map(|_| 3)), 0),
            ("extend by nothing", |x, _| x.extend(0..0), 0),
            ("reserve(10)", |x, _| x.reserve(10), 0),
            ("iteration", |x, _| drop(black_box((&mut *x).into_iter().map(|s| s.count()).max())), 0),
            ("abandoned iteration", |x, _| drop(black_box((&mut *x).into_iter().next().map(|mut s| s.next().copied()))), 0),
            ("continue as clone", |x, _| *x = x.clone(), 0),
            ("clone_from", |x, _| { let o = x.clone(); x.make_set(9); x.clone_from(&o) }, 0),
            ("clear", |x, _| x.clear(), 0),
            ("building by value", |x, _| *x = (0..40).collect(), 40),
            ("building by reference", |x, _| *x = [0u32; 40].iter().collect(), 40),
            ("showing", |x, _| drop(format!("{:?}", x)), 0),
        ]
    }
}

fn jobs(_prop: &str, quick: bool) -> Vec<Box<dyn Job>> {
    let mut js = vec![];
    let ring: &[&[&str]] = &[&[], &["resize to 0"], &["extend by 900"], &["resize to 7", "extend by 900"], &["building from 100"], &["resize to 700", "extend by 900"]];
    js.extend(jobs_for::<Cb<u32>>(quick, ring));
    js.extend(jobs_for::<Cb<[u64; 8]>>(quick, ring));
    js.extend(jobs_for::<C>(quick, &[&[], &["extend by 500"], &["building by value"], &["extend by 500", "clear"], &["push(0)", "push(1)", "push of something new"]]));
    js.extend(jobs_for::<D>(quick, &[&[], &["extend by 300"], &["building by value"], &["extend by 300", "clear"], &["union(0, 1)", "union(2, 0)", "union with something new"]]));
    js
}
fn main() {
    main_with(jobs)
}
