//! Circular buffer: C01..C10.
#![allow(dead_code, unused_macros, unused_variables)]
use advanced_collections::circular_buffer::CircularBuffer;
use mc::alloc;
use mc::elem::*;
use mc::tok::{self, Ev, Tok};
use mc::*;
use std::cmp::Ordering;
use std::collections::VecDeque;
use std::iter::FromIterator;
use std::marker::PhantomData;
use std::num::NonZeroU8;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[cfg(not(miri))]
#[global_allocator]
static A: alloc::Mon = alloc::Mon;

type Cb<T> = CircularBuffer<T>;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {{ mc::obs(); if !($c) { return Err(format!($($a)*)); } }};
}

// ---- feeding iterators ----------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum Hint {
    Exact,
    Unknown,
    /// Both bounds correct, neither exact.
    Loose,
    Huge,
    /// Wrong.
    Lie,
}
const HINTS: [Hint; 4] = [Hint::Exact, Hint::Unknown, Hint::Loose, Hint::Huge];
struct Feed<T> {
    v: std::vec::IntoIter<T>,
    h: Hint,
}
impl<T> Iterator for Feed<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        tok::point(Ev::Next);
        self.v.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.v.len();
        match self.h {
            Hint::Exact => (n, Some(n)),
            Hint::Unknown => (0, None),
            Hint::Loose => (n / 2, Some(n + n / 2 + 2)),
            Hint::Huge => (n / 3, Some(usize::MAX)),
            Hint::Lie => (n + 3, Some(n + 3)),
        }
    }
}
struct FeedRef<'a, T> {
    v: std::slice::Iter<'a, T>,
    h: Hint,
}
impl<'a, T> Iterator for FeedRef<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        tok::point(Ev::Next);
        self.v.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.v.len();
        match self.h {
            Hint::Exact => (n, Some(n)),
            Hint::Unknown => (0, None),
            Hint::Loose => (n / 2, Some(n + n / 2 + 2)),
            Hint::Huge => (n / 3, Some(usize::MAX)),
            Hint::Lie => (n + 3, Some(n + 3)),
        }
    }
}

// ---- iterator programs ----------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
enum Term {
    Drop,
    Collect,
    Count,
    Last,
    Fold,
    SkipNext(usize),
    Skip(usize),
    StepBy(usize),
    Take(usize),
    TakeWhile(usize),
    Find(usize),
    Peek,
    Exhaust,
    Chain,
    Zip(usize),
    ForEach,
    Position(usize),
    All(usize),
    Any(usize),
    Reduce,
    MaxBy,
    MinBy,
    Partition,
    FindMap(usize),
    TryFold(usize),
    ByRef(usize),
    Eq,
    Extend,
}
#[derive(Clone, Debug, PartialEq)]
struct Prog {
    nth: Vec<usize>, // nth(0) is written `next()`
    t: Term,
}
impl Prog {
    fn show(&self) -> String {
        let mut s = String::new();
        for n in &self.nth {
            s += &if *n == 0 { "next, ".to_string() } else { format!("nth({}), ", n) };
        }
        s + &format!("{:?}", self.t)
    }
}
/// Runs a program on an iterator: what it yielded, and every hint it gave.
fn prog<I: Iterator>(mut it: I, p: &Prog, rd: impl Fn(&I::Item) -> u32, hints: &mut Vec<(usize, Option<usize>)>, rem: &dyn Fn(&I) -> usize) -> Vec<Option<u32>> {
    let mut out = Vec::with_capacity(32);
    let mut hint = |it: &I| {
        let (a, b) = it.size_hint();
        let r = rem(it);
        if r != usize::MAX {
            hints.push((r, Some(r)));
        } else {
            hints.push((a, b));
        }
    };
    for &n in &p.nth {
        hint(&it);
        out.push(if n == 0 { it.next() } else { it.nth(n) }.as_ref().map(&rd));
    }
    hint(&it);
    match p.t {
        Term::Drop => {}
        Term::Collect => {
            let v: Vec<_> = it.collect();
            out.extend(v.iter().map(|x| Some(rd(x))))
        }
        Term::Count => out.push(Some(it.count() as u32)),
        Term::Last => out.push(it.last().as_ref().map(&rd)),
        #[cfg(feature = "C05")]
        Term::Fold => it.fold((), |_, x| out.push(Some(rd(&x)))),
        #[cfg(feature = "C05")]
        Term::SkipNext(n) => out.push(it.skip(n).next().as_ref().map(&rd)),
        Term::Skip(n) => it.skip(n).for_each(|x| out.push(Some(rd(&x)))),
        Term::StepBy(n) => it.step_by(n).for_each(|x| out.push(Some(rd(&x)))),
        #[cfg(feature = "C05")]
        Term::Take(n) => it.take(n).for_each(|x| out.push(Some(rd(&x)))),
        #[cfg(feature = "C05")]
        Term::TakeWhile(n) => {
            let mut k = 0;
            it.take_while(|_| {
                k += 1;
                k <= n
            })
            .for_each(|x| out.push(Some(rd(&x))))
        }
        #[cfg(feature = "C05")]
        Term::Find(n) => {
            let mut k = 0;
            out.push(
                it.find(|_| {
                    k += 1;
                    k > n
                })
                .as_ref()
                .map(&rd),
            )
        }
        #[cfg(feature = "C05")]
        Term::Peek => {
            let mut q = it.peekable();
            let x = q.peek().map(&rd);
            out.push(x)
        }
        Term::Exhaust => {
            while let Some(x) = it.next() {
                hint(&it);
                out.push(Some(rd(&x)));
            }
            for _ in 0..3 {
                hint(&it);
                out.push(it.next().as_ref().map(&rd));
            }
            out.push(it.nth(1).as_ref().map(&rd));
        }
        #[cfg(feature = "C05")]
        Term::Chain => it.chain(None).for_each(|x| out.push(Some(rd(&x)))),
        #[cfg(feature = "C05")]
        Term::Zip(n) => it.zip(0..n).for_each(|(x, _)| out.push(Some(rd(&x)))),
        #[cfg(feature = "C05")]
        Term::ForEach => it.for_each(|x| out.push(Some(rd(&x)))),
        // the position reported and what is left behind it
        #[cfg(feature = "C05")]
        Term::Position(n) => {
            let mut k = 0;
            let r = it.position(|_| {
                k += 1;
                k > n
            });
            out.push(r.map(|r| r as u32));
            out.push(it.next().as_ref().map(&rd));
        }
        #[cfg(feature = "C05")]
        Term::All(n) => {
            let mut k = 0;
            let r = it.all(|x| {
                out.push(Some(rd(&x)));
                k += 1;
                k <= n
            });
            out.push(Some(r as u32));
            out.push(it.next().as_ref().map(&rd));
        }
        #[cfg(feature = "C05")]
        Term::Any(n) => {
            let mut k = 0;
            let r = it.any(|x| {
                out.push(Some(rd(&x)));
                k += 1;
                k > n
            });
            out.push(Some(r as u32));
            out.push(it.next().as_ref().map(&rd));
        }
        #[cfg(feature = "C05")]
        Term::Reduce => {
            let r = it.reduce(|a, x| {
                out.push(Some(rd(&x)));
                a
            });
            out.push(r.as_ref().map(&rd));
        }
        #[cfg(feature = "C05")]
        Term::MaxBy => out.push(it.max_by(|a, b| rd(a).cmp(&rd(b))).as_ref().map(&rd)),
        #[cfg(feature = "C05")]
        Term::MinBy => out.push(it.min_by(|a, b| rd(a).cmp(&rd(b))).as_ref().map(&rd)),
        #[cfg(feature = "C05")]
        Term::Partition => {
            let mut k = 0;
            let mut a = vec![];
            it.for_each(|x| {
                k += 1;
                if k % 2 == 0 { out.push(Some(rd(&x))) } else { a.push(Some(rd(&x))) }
            });
            out.append(&mut a);
        }
        #[cfg(feature = "C05")]
        Term::FindMap(n) => {
            let mut k = 0;
            let r = it.find_map(|x| {
                k += 1;
                if k > n { Some(rd(&x)) } else { None }
            });
            out.push(r);
            out.push(it.next().as_ref().map(&rd));
        }
        #[cfg(feature = "C05")]
        Term::TryFold(n) => {
            let r = it.try_fold(0, |k, x| {
                out.push(Some(rd(&x)));
                if k < n { Ok(k + 1) } else { Err(k) }
            });
            out.push(Some(match r {
                Ok(k) => k as u32,
                Err(k) => 1000 + k as u32,
            }));
            out.push(it.next().as_ref().map(&rd));
        }
        #[cfg(feature = "C05")]
        Term::ByRef(n) => {
            it.by_ref().take(n).for_each(|x| out.push(Some(rd(&x))));
            hint(&it);
            it.by_ref().skip(1).take(n).for_each(|x| out.push(Some(rd(&x))));
            hint(&it);
            out.push(it.next().as_ref().map(&rd));
        }
        #[cfg(feature = "C05")]
        Term::Eq => {
            let mut k = 0;
            let same = it.by_ref().map(|x| rd(&x)).eq(std::iter::from_fn(|| {
                k += 1;
                if k < 3 { Some(u32::MAX) } else { None }
            }));
            out.push(Some(same as u32));
        }
        #[cfg(feature = "C05")]
        Term::Extend => {
            let mut v: VecDeque<I::Item> = VecDeque::new();
            v.extend(it);
            out.extend(v.iter().map(|x| Some(rd(x))))
        }
        #[cfg(not(feature = "C05"))]
        _ => unreachable!(),
    }
    out
}
struct ModelIter<'a>(&'a mut VecDeque<u32>);
impl<'a> Iterator for ModelIter<'a> {
    type Item = u32;
    fn next(&mut self) -> Option<u32> {
        self.0.pop_front()
    }
}
fn progs(letters: &[usize], len: usize) -> Vec<Prog> {
    let terms = vec![
        Term::Drop,
        Term::Collect,
        Term::Count,
        Term::Last,
        Term::Fold,
        Term::SkipNext(1),
        Term::Skip(0),
        Term::Skip(2),
        Term::StepBy(1),
        Term::StepBy(2),
        Term::Take(0),
        Term::Take(1),
        Term::Take(2),
        Term::TakeWhile(1),
        Term::Find(0),
        Term::Find(1),
        Term::Find(9),
        Term::Peek,
        Term::Exhaust,
        Term::Chain,
        Term::Zip(2),
        Term::ForEach,
        Term::Position(0),
        Term::Position(1),
        Term::Position(9),
        Term::All(1),
        Term::All(9),
        Term::Any(1),
        Term::Any(9),
        Term::Reduce,
        Term::MaxBy,
        Term::MinBy,
        Term::Partition,
        Term::FindMap(1),
        Term::TryFold(1),
        Term::TryFold(9),
        Term::ByRef(1),
        Term::ByRef(2),
        Term::Eq,
        Term::Extend,
    ];
    let terms: Vec<Term> = terms.into_iter().filter(|t| cfg!(feature = "C05") || matches!(t, Term::Drop | Term::Collect | Term::Count | Term::Last | Term::Skip(_) | Term::StepBy(_) | Term::Exhaust)).collect();
    let mut pre: Vec<Vec<usize>> = vec![vec![]];
    let mut k = 0;
    while k < pre.len() {
        if pre[k].len() < len {
            for &l in letters {
                let mut p = pre[k].clone();
                p.push(l);
                pre.push(p);
            }
        }
        k += 1;
    }
    let mut out = vec![];
    for p in pre {
        for (i, t) in terms.iter().enumerate() {
            if i > 20 && p.len() + 1 >= len.max(2) {
                continue;
            }
            out.push(Prog { nth: p.clone(), t: t.clone() });
        }
    }
    out
}

// ---- operations -----------------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
enum Op {
    PushB,
    PushF,
    PopB,
    PopF,
    Set(usize),
    FirstMut,
    LastMut,
    IterMutAll,
    IterMutAt(usize, bool),
    SlicesMutAll,
    ForMut,
    Swap(usize, usize),
    Reverse,
    Linearize,
    LinearizeW,
    Resize(usize),
    Extend(usize, Hint),
    ExtendRef(usize, Hint),
    Append(usize, usize, usize),
    Clear,
    FromVec(usize, usize),
    FromIter(usize, Hint),
    FromIterRef(usize, Hint),
    New(usize),
    WithCap(usize),
    Drain(Prog),
    Into(Prog),
    DrainForget(usize),
    IntoForget(usize),
    CloneReplace,
    CloneFrom(usize, usize, usize),
    CloneOnto(usize, usize, usize),
    CloneDrop,
    DropNew(usize),
    ReadAll,
    Fault(Ev, u32, Box<Op>),
    Spin(usize),
    Fill(usize),
}
fn show(o: &Op) -> String {
    match o {
        Op::Drain(p) => format!("drain [{}]", p.show()),
        Op::Into(p) => format!("into_iter [{}]; new", p.show()),
        Op::Spin(n) => format!("push_back+pop_front x{}", n),
        Op::Fill(n) => format!("push_back x{}", n),
        Op::Append(c, r, l) => format!("append(buffer of capacity {}, start {}, len {})", c, r, l),
        Op::CloneFrom(c, r, l) => format!("clone_from(buffer of capacity {}, start {}, len {})", c, r, l),
        Op::CloneOnto(c, r, l) => format!("= clone_from on a buffer of capacity {}, start {}, len {}", c, r, l),
        Op::Fault(e, k, o) => format!("{} with a panic in {:?} #{}", show(o), e, k),
        Op::FromVec(n, s) => format!("= From(vec of {}, spare capacity {})", n, s),
        _ => format!("{:?}", o),
    }
}

struct St<T: Elem> {
    cb: Option<Cb<T>>,
    other: Option<Cb<T>>,
    m: VecDeque<u32>,
    cap: usize,
    next: u32,
    faulted: bool,
    ev: u64,
}
fn lib<R>(f: impl FnOnce() -> R) -> R {
    alloc::track(f)
}

/// What a scenario observes in every state.
#[derive(Clone, Copy, PartialEq)]
enum Ck {
    Shape,
    Views,
    Live,
    NoAlloc,
    Safe,
}

fn vals<T: Elem>(cb: &Cb<T>) -> Vec<u32> {
    cb.iter().map(|x| x.rd()).collect()
}

fn shape<T: Elem>(cb: &Cb<T>, m: &[u32], cap: usize) -> Res {
    ensure!(cb.len() == m.len(), "len() is {}, expected {}", cb.len(), m.len());
    ensure!(cb.is_empty() == m.is_empty(), "is_empty() is {} with {} elements", cb.is_empty(), m.len());
    ensure!(cb.is_full() == (m.len() == cap), "is_full() is {} with {} of {} elements", cb.is_full(), m.len(), cap);
    ensure!(cb.capacity() == cap, "capacity() is {}, expected {}", cb.capacity(), cap);
    Ok(())
}
/// Consumption patterns of a double-ended iterator: bit set = from the back.
fn patterns(n: usize) -> Vec<u64> {
    if n <= 6 {
        (0..1u64 << n).collect()
    } else {
        vec![0, !0, 0xAAAA_AAAA_AAAA_AAAA, 0x5555_5555_5555_5555, 0xF0F0_F0F0_F0F0_F0F0, 1, !1]
    }
}
/// Programs over a double-ended iterator: some steps at either end, then something that consumes the rest. The
/// results and the length hints are compared with those of an iterator over a plain slice.
fn both_ends<I: DoubleEndedIterator>(mut it: I, pre: &[u8], term: u8, rd: impl Fn(I::Item) -> u32, out: &mut Vec<Option<u32>>, hints: &mut Vec<(usize, Option<usize>)>) {
    for p in pre {
        out.push(match p {
            0 => it.next(),
            1 => it.next_back(),
            2 => it.nth(1),
            3 => it.nth_back(1),
            _ => it.nth(3),
        }
        .map(&rd));
        hints.push(it.size_hint());
    }
    let mut k = 0;
    match term {
        0 => out.push(Some(it.count() as u32)),
        1 => out.push(it.last().map(&rd)),
        2 => it.fold((), |_, x| out.push(Some(rd(x)))),
        3 => it.rfold((), |_, x| out.push(Some(rd(x)))),
        4 => {
            let v: Vec<I::Item> = it.collect();
            out.extend(v.into_iter().map(|x| Some(rd(x))))
        }
        5 => it.rev().for_each(|x| out.push(Some(rd(x)))),
        6 => {
            let r = it.position(|_| {
                k += 1;
                k == 2
            });
            out.push(r.map(|r| r as u32));
            out.push(it.next_back().map(&rd));
        }
        7 => {
            let r = it.rfind(|_| {
                k += 1;
                k == 2
            });
            out.push(r.map(&rd));
            out.push(it.next().map(&rd));
        }
        8 => {
            let r = it.all(|_| {
                k += 1;
                k < 2
            });
            out.push(Some(r as u32));
            out.push(it.next_back().map(&rd));
        }
        9 => it.step_by(2).for_each(|x| out.push(Some(rd(x)))),
        10 => it.rev().skip(1).for_each(|x| out.push(Some(rd(x)))),
        11 => {
            it.by_ref().rev().take(1).for_each(|x| out.push(Some(rd(x))));
            it.by_ref().take(1).for_each(|x| out.push(Some(rd(x))));
            hints.push(it.size_hint());
            out.push(it.last().map(&rd));
        }
        12 => it.skip(1).for_each(|x| out.push(Some(rd(x)))),
        13 => {
            let r = it.rev().step_by(2).map(&rd).find(|_| {
                k += 1;
                k == 2
            });
            out.push(r);
        }
        _ => {
            let r = it.try_fold(0, |a, x| {
                out.push(Some(rd(x)));
                if a < 1 { Ok(a + 1) } else { Err(a) }
            });
            out.push(Some(r.is_ok() as u32));
            hints.push(it.size_hint());
            let r = it.try_rfold(0, |a, x| {
                out.push(Some(rd(x)));
                if a < 1 { Ok(a + 1) } else { Err(a) }
            });
            out.push(Some(r.is_ok() as u32));
            hints.push(it.size_hint());
        }
    }
}
const TERMS: u8 = 15;
fn prefixes() -> &'static [Vec<u8>] {
    static P: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let mut v = vec![vec![]];
        for a in 0..5 {
            v.push(vec![a]);
            for b in 0..5 {
                v.push(vec![a, b]);
            }
        }
        v
    })
}

/// Exercises a double-ended iterator (made anew by the expression) in every way against `m`.
macro_rules! walk {
    ($what:expr, $mk:expr, $m:expr) => {{
        let m: &[u32] = $m;
        let n = m.len();
        macro_rules! go {
            (mut $it:ident, $b:block) => {{
                let mut $it = $mk;
                let r: Res = (|| $b)();
                r.map_err(|e| format!("{}: {}", $what, e))?;
            }};
            ($it:ident, $b:block) => {{
                let $it = $mk;
                let r: Res = (|| $b)();
                r.map_err(|e| format!("{}: {}", $what, e))?;
            }};
        }
    for p in patterns(n) {
            go!(mut it, {
                let (mut a, mut b) = (0, n);
                for k in 0..n {
                    let (lo, hi) = it.size_hint();
                    ensure!(lo <= b - a && hi.map_or(true, |h| h >= b - a), "size_hint {:?} with {} elements left", (lo, hi), b - a);
                    let back = p >> (k % 64) & 1 == 1;
                    let x = if back { it.next_back() } else { it.next() };
                    let want = if back {
                        b -= 1;
                        m[b]
                    } else {
                        a += 1;
                        m[a - 1]
                    };
                    let got = x.as_ref().map(|x| x.rd());
                    ensure!(got == Some(want), "element {} from the {} is {:?}, expected {}", k, if back { "back" } else { "front" }, got, want);
                }
                ensure!(it.next().is_none() && it.next_back().is_none() && it.next().is_none(), "yields more than {} elements", n);
                Ok(())
            });
        }
        let ks: Vec<usize> = if n <= 12 { (0..=n + 1).collect() } else { vec![0, 1, n / 2, n - 1, n, n + 1] };
        for &k in &ks {
            go!(mut it, {
                let g = it.nth(k).as_ref().map(|x| x.rd());
                ensure!(g == m.get(k).copied(), "nth({}) is {:?}", k, g);
                let g = it.next().as_ref().map(|x| x.rd());
                ensure!(g == m.get(k + 1).copied(), "next after nth({}) is {:?}", k, g);
                let g = it.next_back().as_ref().map(|x| x.rd());
                ensure!(g == if n > k + 2 { Some(m[n - 1]) } else { None }, "next_back after nth({}), next is {:?}", k, g);
                Ok(())
            });
            go!(mut it, {
                let g = it.nth_back(k).as_ref().map(|x| x.rd());
                let want = if k < n { Some(m[n - 1 - k]) } else { None };
                ensure!(g == want, "nth_back({}) is {:?}", k, g);
                let g = it.next_back().as_ref().map(|x| x.rd());
                let want = if k + 1 < n { Some(m[n - 2 - k]) } else { None };
                ensure!(g == want, "next_back after nth_back({}) is {:?}", k, g);
                let g = it.next().as_ref().map(|x| x.rd());
                ensure!(g == if n > k + 2 { Some(m[0]) } else { None }, "next after nth_back({}) is {:?}", k, g);
                Ok(())
            });
        }
        go!(it, {
            ensure!(it.count() == n, "count()");
            Ok(())
        });
        go!(it, {
            let g = it.last().as_ref().map(|x| x.rd());
            ensure!(g == m.last().copied(), "last() is {:?}", g);
            Ok(())
        });
        go!(it, {
            let v: Vec<u32> = it.fold(vec![], |mut v, x| {
                v.push(x.rd());
                v
            });
            ensure!(v == m, "fold visits {:?}, expected {:?}", v, m);
            Ok(())
        });
        go!(it, {
            let mut v: Vec<u32> = it.rfold(vec![], |mut v, x| {
                v.push(x.rd());
                v
            });
            v.reverse();
            ensure!(v == m, "rfold visits {:?} (reversed), expected {:?}", v, m);
            Ok(())
        });
        if n <= 8 && cfg!(feature = "C02") {
            let (mut o, mut h, mut wo, mut wh) = (vec![], vec![], vec![], vec![]);
            for pre in prefixes() {
                for t in 0..TERMS {
                    o.clear();
                    h.clear();
                    wo.clear();
                    wh.clear();
                    both_ends($mk, pre, t, |x| x.rd(), &mut o, &mut h);
                    both_ends(m.iter(), pre, t, |x| *x, &mut wo, &mut wh);
                    let ok = h.iter().zip(&wh).all(|(g, w)| g.0 <= w.0 && g.1.map_or(true, |x| x >= w.0));
                    if o != wo || !ok {
                        return Err(format!("{}: steps {:?} (next, next_back, nth(1), nth_back(1), nth(3)), then program {}: {:?} with hints {:?}, expected {:?} with {:?}", $what, pre, t, o, h, wo, wh));
                    }
                }
            }
        }
    }};
}
fn full_views<T: Elem>(cb: &mut Cb<T>, m: &[u32], cap: usize) -> Res {
    shape(cb, m, cap)?;
    let n = m.len();
    let big = n > 300;
    for i in 0..n {
        let g = cb[i].rd();
        ensure!(g == m[i], "[{}] is {}, expected {}", i, g, m[i]);
        let g = (&mut cb[i]).rd();
        ensure!(g == m[i], "mutable [{}] is {}, expected {}", i, g, m[i]);
    }
    for (w, g) in [
        ("first()", cb.first().map(|x| x.rd())),
        ("first_mut()", cb.first_mut().map(|x| x.rd())),
    ] {
        ensure!(g == m.first().copied(), "{} is {:?}, expected {:?}", w, g, m.first());
    }
    for (w, g) in [
        ("last()", cb.last().map(|x| x.rd())),
        ("last_mut()", cb.last_mut().map(|x| x.rd())),
    ] {
        ensure!(g == m.last().copied(), "{} is {:?}, expected {:?}", w, g, m.last());
    }
    {
        let (a, b) = cb.slices();
        let v: Vec<u32> = a.iter().chain(b).map(|x| x.rd()).collect();
        ensure!(v == m, "slices() show {:?}, expected {:?}", brief(&v), brief(m));
    }
    {
        let (a, b) = cb.slices_mut();
        let v: Vec<u32> = a.iter().chain(b.iter()).map(|x| x.rd()).collect();
        ensure!(v == m, "slices_mut() show {:?}, expected {:?}", brief(&v), brief(m));
    }
    if big {
        let v = vals(cb);
        ensure!(v == m, "iter() shows {:?}, expected {:?}", brief(&v), brief(m));
        let mut v: Vec<u32> = cb.iter().rev().map(|x| x.rd()).collect();
        v.reverse();
        ensure!(v == m, "iter().rev() shows {:?} (reversed), expected {:?}", brief(&v), brief(m));
        let v: Vec<u32> = cb.iter_mut().map(|x| x.rd()).collect();
        ensure!(v == m, "iter_mut() shows {:?}, expected {:?}", brief(&v), brief(m));
        return Ok(());
    }
    walk!("iter()", cb.iter(), m);
    walk!("iter_mut()", cb.iter_mut(), m);
    let v: Vec<u32> = (&*cb).into_iter().map(|x| x.rd()).collect();
    ensure!(v == m, "iteration over a reference shows {:?}, expected {:?}", v, m);
    let v: Vec<u32> = (&mut *cb).into_iter().map(|x| x.rd()).collect();
    ensure!(v == m, "iteration over a mutable reference shows {:?}, expected {:?}", v, m);
    Ok(())
}
fn brief(v: &[u32]) -> Vec<u32> {
    v.iter().take(16).copied().collect()
}
fn oob<T: Elem>(cb: &mut Cb<T>, m: &[u32], cap: usize) -> Res {
    let n = m.len();
    let mut is = vec![n, n + 1, cap, cap + 1, cap + 2, 2 * cap + 2, usize::MAX, usize::MAX - 1, usize::MAX - cap, usize::MAX / 2 + 1];
    is.retain(|&i| i >= n);
    is.sort();
    is.dedup();
    for i in is {
        ensure!(expect_panic(|| cb[i].rd()).is_ok(), "reading [{}] with {} elements does not panic", i, n);
        ensure!(expect_panic(|| (&mut cb[i]).rd()).is_ok(), "accessing [{}] mutably with {} elements does not panic", i, n);
    }
    Ok(())
}

impl<T: Elem> St<T> {
    fn new(cap: usize) -> Self {
        mc::elem::ZLIVE.with(|z| z.set(0));
        St { cb: Some(lib(|| Cb::new(cap))), other: None, m: VecDeque::new(), cap, next: 0, faulted: false, ev: 0 }
    }
    fn fresh(&mut self) -> (T, u32) {
        let n = self.next;
        self.next += 1;
        (T::mk(n), n % T::MOD)
    }
    fn many(&mut self, k: usize) -> (Vec<T>, Vec<u32>) {
        (0..k).map(|_| self.fresh()).unzip()
    }
    fn m_push_b(&mut self, x: u32) {
        if self.cap > 0 {
            if self.m.len() == self.cap {
                self.m.pop_front();
            }
            self.m.push_back(x);
        }
    }
    fn m_push_f(&mut self, x: u32) {
        if self.cap > 0 {
            if self.m.len() == self.cap {
                self.m.pop_back();
            }
            self.m.push_front(x);
        }
    }
    fn build(&mut self, c: usize, r: usize, l: usize) -> (Cb<T>, Vec<u32>) {
        let mut o = lib(|| Cb::new(c));
        for _ in 0..r {
            let x = self.fresh().0;
            o.push_back(x);
            o.pop_front();
        }
        let mut v = vec![];
        for _ in 0..l {
            let (x, m) = self.fresh();
            o.push_back(x);
            v.push(m);
        }
        (o, v)
    }
    fn drop_cb(&mut self) {
        let cb = self.cb.take();
        lib(move || drop(cb));
    }
    fn renew(&mut self, cap: usize) {
        self.cb = Some(lib(|| Cb::new(cap)));
        self.m.clear();
        self.cap = cap;
    }
    fn raw(&mut self, op: &Op) -> Res {
        macro_rules! cb {
            () => {
                self.cb.as_mut().unwrap()
            };
        }
        match op {
            Op::PushB => {
                let (x, v) = self.fresh();
                lib(|| cb!().push_back(x));
                self.m_push_b(v);
            }
            Op::PushF => {
                let (x, v) = self.fresh();
                lib(|| cb!().push_front(x));
                self.m_push_f(v);
            }
            Op::PopB => {
                let g = lib(|| cb!().pop_back());
                let w = self.m.pop_back();
                let g = g.as_ref().map(|x| x.rd());
                ensure!(g == w, "pop_back() is {:?}, expected {:?}", g, w);
            }
            Op::PopF => {
                let g = lib(|| cb!().pop_front());
                let w = self.m.pop_front();
                let g = g.as_ref().map(|x| x.rd());
                ensure!(g == w, "pop_front() is {:?}, expected {:?}", g, w);
            }
            Op::Set(i) => {
                let (x, v) = self.fresh();
                if *i < self.m.len() {
                    lib(|| cb!()[*i] = x);
                    self.m[*i] = v;
                } else {
                    let cb = cb!();
                    ensure!(expect_panic(move || cb[*i] = x).is_ok(), "writing [{}] with {} elements does not panic", i, self.m.len());
                }
            }
            Op::FirstMut => {
                let (x, v) = self.fresh();
                let some = lib(|| match cb!().first_mut() {
                    Some(p) => {
                        *p = x;
                        true
                    }
                    None => false,
                });
                ensure!(some == !self.m.is_empty(), "first_mut() on {} elements gives {}", self.m.len(), some);
                if let Some(p) = self.m.front_mut() {
                    *p = v
                }
            }
            Op::LastMut => {
                let (x, v) = self.fresh();
                let some = lib(|| match cb!().last_mut() {
                    Some(p) => {
                        *p = x;
                        true
                    }
                    None => false,
                });
                ensure!(some == !self.m.is_empty(), "last_mut() on {} elements gives {}", self.m.len(), some);
                if let Some(p) = self.m.back_mut() {
                    *p = v
                }
            }
            Op::IterMutAll | Op::SlicesMutAll | Op::ForMut => {
                let (xs, vs) = self.many(self.m.len());
                let mut xs = xs.into_iter();
                lib(|| match op {
                    Op::IterMutAll => cb!().iter_mut().for_each(|p| *p = xs.next().unwrap()),
                    Op::ForMut => {
                        for p in cb!() {
                            *p = xs.next().unwrap()
                        }
                    }
                    _ => {
                        let (a, b) = cb!().slices_mut();
                        a.iter_mut().chain(b.iter_mut()).for_each(|p| *p = xs.next().unwrap())
                    }
                });
                self.m = vs.into();
            }
            Op::IterMutAt(k, back) => {
                let n = self.m.len();
                let (x, v) = self.fresh();
                let some = lib(|| {
                    let mut it = cb!().iter_mut();
                    let p = if *back { it.nth_back(*k) } else { it.nth(*k) };
                    match p {
                        Some(p) => {
                            *p = x;
                            true
                        }
                        None => false,
                    }
                });
                ensure!(some == (*k < n), "iter_mut position {} of {} gives {}", k, n, some);
                if *k < n {
                    self.m[if *back { n - 1 - k } else { *k }] = v
                }
            }
            Op::Swap(i, j) => {
                if *i < self.m.len() && *j < self.m.len() {
                    lib(|| cb!().swap(*i, *j));
                    self.m.swap(*i, *j);
                } else {
                    let cb = cb!();
                    ensure!(expect_panic(|| cb.swap(*i, *j)).is_ok(), "swap({}, {}) with {} elements does not panic", i, j, self.m.len());
                }
            }
            Op::Reverse => {
                lib(|| cb!().reverse());
                self.m.make_contiguous().reverse();
            }
            Op::Linearize => {
                let s = lib(|| cb!().linearize());
                let v: Vec<u32> = s.iter().map(|x| x.rd()).collect();
                ensure!(self.m == v, "linearize() returns {:?}, expected {:?}", brief(&v), self.m.iter().take(16).collect::<Vec<_>>());
            }
            Op::LinearizeW => {
                let (xs, vs) = self.many(self.m.len());
                let s = lib(|| cb!().linearize());
                ensure!(s.len() == vs.len(), "linearize() returns {} elements, expected {}", s.len(), vs.len());
                for (p, x) in s.iter_mut().zip(xs) {
                    *p = x
                }
                self.m = vs.into();
            }
            Op::Resize(n) => {
                lib(|| cb!().resize(*n));
                while self.m.len() > *n {
                    self.m.pop_front();
                }
                self.cap = *n;
            }
            Op::Extend(n, h) => {
                let (xs, vs) = self.many(*n);
                let f = Feed { v: xs.into_iter(), h: *h };
                // the source is consumed by the call; its own buffer is harness memory
                let v0 = f.v.len();
                debug_assert!(v0 == *n);
                lib(|| cb!().extend(ByRef(f, PhantomData::<T>)));
                for v in vs {
                    self.m_push_b(v)
                }
            }
            Op::ExtendRef(n, h) => {
                let (xs, vs) = self.many(*n);
                lib(|| cb!().extend(FeedRef { v: xs.iter(), h: *h }));
                for (x, v) in xs.iter().zip(&vs) {
                    ensure!(x.rd() == *v, "extend by reference changed its source");
                }
                for v in vs {
                    self.m_push_b(v)
                }
            }
            Op::Append(c, r, l) => {
                let (o, vs) = self.build(*c, *r, *l);
                self.other = Some(o);
                lib(|| self.cb.as_mut().unwrap().append(self.other.as_mut().unwrap()));
                for v in vs {
                    self.m_push_b(v)
                }
                let mut o = self.other.take().unwrap();
                shape(&o, &[], *c).map_err(|e| format!("source after append: {}", e))?;
                ensure!(o.pop_front().is_none() && o.pop_back().is_none() && o.iter().next().is_none(), "source after append is not empty");
                let mut want = vec![];
                for _ in 0..*c {
                    let (x, v) = self.fresh();
                    o.push_back(x);
                    want.push(v);
                }
                ensure!(vals(&o) == want, "source after append is not usable");
                lib(|| drop(o));
            }
            Op::Clear => {
                lib(|| cb!().clear());
                self.m.clear();
            }
            Op::FromVec(n, spare) => {
                let (xs, vs) = self.many(*n);
                let mut v = lib(|| Vec::with_capacity(n + spare));
                v.extend(xs);
                let new = lib(|| Cb::from(v));
                self.drop_cb();
                self.cb = Some(new);
                self.m = vs.into();
                self.cap = *n;
            }
            Op::FromIter(n, h) => {
                let (xs, vs) = self.many(*n);
                let f = Feed { v: xs.into_iter(), h: *h };
                let new = lib(|| Cb::from_iter(ByRef(f, PhantomData::<T>)));
                self.drop_cb();
                self.cb = Some(new);
                self.m = vs.into();
                self.cap = *n;
            }
            Op::FromIterRef(n, h) => {
                let (xs, vs) = self.many(*n);
                let new: Cb<T> = lib(|| Cb::from_iter(FeedRef { v: xs.iter(), h: *h }));
                self.drop_cb();
                self.cb = Some(new);
                self.m = vs.into();
                self.cap = *n;
            }
            Op::New(c) => {
                self.drop_cb();
                self.renew(*c)
            }
            Op::WithCap(c) => {
                self.drop_cb();
                self.cb = Some(lib(|| Cb::with_capacity(*c)));
                self.m.clear();
                self.cap = *c;
            }
            Op::Drain(p) => {
                let mut h = vec![];
                let g = {
                    let d = lib(|| cb!().drain());
                    prog(d, p, |x| x.rd(), &mut h, &|_| usize::MAX)
                };
                self.compare_prog(p, g, h)?;
            }
            Op::Into(p) => {
                let mut h = vec![];
                let cb = self.cb.take().unwrap();
                let it = lib(|| cb.into_iter());
                let g = prog(it, p, |x| x.rd(), &mut h, &|_| usize::MAX);
                let r = self.compare_prog(p, g, h);
                let c = self.cap;
                self.renew(c);
                r?;
            }
            Op::DrainForget(k) => {
                let mut d = cb!().drain();
                for _ in 0..*k {
                    d.next();
                }
                std::mem::forget(d);
                self.resync(self.m.iter().copied().collect(), None, 0, vec![self.cap])?;
            }
            Op::IntoForget(k) => {
                let mut d = self.cb.take().unwrap().into_iter();
                for _ in 0..*k {
                    d.next();
                }
                std::mem::forget(d);
                self.faulted = true;
                let c = self.cap;
                self.renew(c);
            }
            Op::CloneReplace => {
                let c = lib(|| cb!().clone());
                self.drop_cb();
                self.cb = Some(c);
            }
            Op::CloneFrom(c, r, l) => {
                let (o, vs) = self.build(*c, *r, *l);
                self.other = Some(o);
                lib(|| self.cb.as_mut().unwrap().clone_from(self.other.as_ref().unwrap()));
                let o = self.other.take().unwrap();
                ensure!(vals(&o) == vs && o.capacity() == *c, "clone_from changed its source");
                lib(|| drop(o));
                self.m = vs.into();
                self.cap = *c;
            }
            Op::CloneOnto(c, r, l) => {
                let (o, _) = self.build(*c, *r, *l);
                self.other = Some(o);
                lib(|| self.other.as_mut().unwrap().clone_from(self.cb.as_ref().unwrap()));
                let v = vals(self.cb.as_ref().unwrap());
                ensure!(self.m == v, "clone_from changed its source to {:?}", v);
                self.drop_cb();
                self.cb = self.other.take();
            }
            Op::CloneDrop => {
                let c = lib(|| cb!().clone());
                let v = vals(&c);
                ensure!(self.m == v, "clone has {:?}, expected {:?}", v, self.m);
                lib(|| drop(c));
            }
            Op::DropNew(c) => {
                self.drop_cb();
                self.renew(*c)
            }
            Op::ReadAll => {
                let cb = self.cb.as_ref().unwrap();
                let n = self.m.len();
                let mut s = 0u64;
                lib(|| {
                    for i in 0..n {
                        s += cb[i].rd() as u64;
                    }
                    s += cb.iter().map(|x| x.rd() as u64).sum::<u64>();
                    s += cb.iter().rev().map(|x| x.rd() as u64).sum::<u64>();
                    for x in cb {
                        s += x.rd() as u64;
                    }
                    let (a, b) = cb.slices();
                    s += a.len() as u64 + b.len() as u64;
                    if let (Some(a), Some(b)) = (cb.first(), cb.last()) {
                        s += a.rd() as u64 + b.rd() as u64
                    }
                    s += (*cb == *cb) as u64 + (cb.partial_cmp(cb) == Some(Ordering::Equal)) as u64 + (*cb < *cb) as u64;
                    s += (*cb == *cb.slices().0) as u64 + (*cb == cb.slices().0) as u64;
                    s += cb.len() as u64 + cb.capacity() as u64 + cb.is_full() as u64 + cb.is_empty() as u64;
                });
                let cb = cb!();
                lib(|| {
                    for i in 0..n {
                        s += (&mut cb[i]).rd() as u64;
                    }
                    s += cb.iter_mut().map(|x| x.rd() as u64).sum::<u64>();
                    s += cb.slices_mut().0.len() as u64;
                    for x in &mut *cb {
                        s += x.rd() as u64;
                    }
                    s += cb.first_mut().is_some() as u64 + cb.last_mut().is_some() as u64;
                });
                std::hint::black_box(s);
            }
            Op::Spin(n) => {
                for _ in 0..*n {
                    let (x, _) = self.fresh();
                    cb!().push_back(x);
                    cb!().pop_front();
                }
            }
            Op::Fill(n) => {
                for _ in 0..*n {
                    let (x, v) = self.fresh();
                    cb!().push_back(x);
                    self.m_push_b(v);
                }
            }
            Op::Fault(..) => unreachable!(),
        }
        Ok(())
    }
    fn compare_prog(&mut self, p: &Prog, g: Vec<Option<u32>>, h: Vec<(usize, Option<usize>)>) -> Res {
        // the reference: the same program on a queue; its length at every hint
        let mut hm = vec![];
        let w = {
            let it = ModelIter(&mut self.m);
            prog(it, p, |x| *x, &mut hm, &|i: &ModelIter| i.0.len())
        };
        ensure!(g == w, "iterator program [{}] gives {:?}, expected {:?}", p.show(), g, w);
        for (h, r) in h.iter().zip(&hm) {
            let r = r.0;
            ensure!(h.0 <= r && h.1.map_or(true, |x| x >= r), "size_hint() is {:?} with {} elements left", h, r);
        }
        Ok(())
    }
    /// After an interrupted operation: the buffer must be consistent and contain only permitted
    /// elements; the model continues from what it contains.
    fn resync(&mut self, allowed: Vec<u32>, before: Option<Vec<u32>>, mark: u32, caps: Vec<usize>) -> Res {
        self.faulted = true;
        let mut seen: Vec<u32> = vec![];
        for who in 0..2 {
            let cb = if who == 0 { self.cb.as_mut() } else { self.other.as_mut() };
            let cb = match cb {
                Some(c) => c,
                None => continue,
            };
            ensure!(cb.len() <= cb.capacity(), "{} elements in a buffer of capacity {}", cb.len(), cb.capacity());
            let v = vals(cb);
            let cap = cb.capacity();
            full_views(cb, &v, cap)?;
            for x in &v {
                ensure!(allowed.contains(x), "the buffer contains a value ({}) that was neither stored in it nor being added", x);
            }
            if T::TRACKED {
                for x in cb.iter() {
                    let u = x.uid();
                    ensure!(!seen.contains(&u), "the same element is stored twice");
                    seen.push(u);
                    if let Some(b) = &before {
                        ensure!(u >= mark || b.contains(&u), "the buffer contains an element that was neither stored in it nor being added");
                    }
                }
            }
            if who == 0 {
                ensure!(caps.contains(&cap), "capacity became {}", cap);
                self.m = v.into();
                self.cap = cap;
            }
        }
        if let Some(mut o) = self.other.take() {
            let (x, v) = self.fresh();
            o.push_back(x);
            ensure!(o.capacity() == 0 || o.last().map(|x| x.rd()) == Some(v), "the source of an interrupted append is not usable");
        }
        Ok(())
    }
    fn fault(&mut self, e: Ev, k: u32, op: &Op) -> Step {
        let before: Vec<u32> = self.cb.as_ref().unwrap().iter().map(|x| x.uid()).collect();
        let mut allowed: Vec<u32> = self.m.iter().copied().collect();
        let n0 = self.next;
        let mark = {
            let t = T::mk(0);
            let u = t.uid();
            drop(t);
            u
        };
        let mut caps = vec![self.cap];
        match op {
            Op::Resize(n) | Op::New(n) | Op::WithCap(n) | Op::DropNew(n) | Op::FromVec(n, _) | Op::FromIter(n, _) | Op::FromIterRef(n, _) | Op::CloneFrom(n, ..) => caps.extend([0, *n]),
            _ => {}
        }
        let cap0 = self.cap;
        tok::arm(e, k);
        let r = catch_unwind(AssertUnwindSafe(|| self.raw(op)));
        if !tok::disarm() {
            if let Err(p) = r {
                std::panic::resume_unwind(p);
            }
            return Ok(Flow::Disabled);
        }
        allowed.extend((n0..self.next).map(|x| x % T::MOD));
        if self.cb.is_none() {
            self.renew(cap0);
        }
        self.resync(allowed, Some(before), mark, caps)?;
        Ok(Flow::Go)
    }
}
/// Marks by-value feeding (keeps `Extend<T>` and `Extend<&T>` apart for inference).
struct ByRef<T>(Feed<T>, PhantomData<T>);
impl<T> IntoIterator for ByRef<T> {
    type Item = T;
    type IntoIter = FeedIn<T>;
    fn into_iter(self) -> FeedIn<T> {
        FeedIn(Some(self.0))
    }
}
/// Releases the harness memory of the source outside the tracked region.
struct FeedIn<T>(Option<Feed<T>>);
impl<T> Iterator for FeedIn<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.as_mut().unwrap().next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.as_ref().unwrap().size_hint()
    }
}
impl<T> Drop for FeedIn<T> {
    fn drop(&mut self) {
        let f = self.0.take();
        alloc::untrack(move || drop(f));
    }
}

// ---- scenario -------------------------------------------------------------------------------------
struct Ring<T> {
    name: String,
    ops: Vec<Op>,
    extra: Vec<Op>,
    roots: Vec<Vec<u16>>,
    ck: Ck,
    _p: PhantomData<fn() -> T>,
}
impl<T: Elem> Ring<T> {
    fn new(name: &str, ck: Ck, mut ops: Vec<Op>, root_ops: Vec<Vec<Op>>) -> Self {
        let mut d: Vec<Op> = vec![];
        for o in ops.drain(..) {
            if !d.contains(&o) {
                d.push(o)
            }
        }
        let ops = d;
        let mut extra: Vec<Op> = vec![];
        let roots = root_ops
            .into_iter()
            .map(|r| {
                r.into_iter()
                    .map(|o| match extra.iter().position(|x| *x == o) {
                        Some(i) => (ops.len() + i) as u16,
                        None => {
                            extra.push(o);
                            (ops.len() + extra.len() - 1) as u16
                        }
                    })
                    .collect()
            })
            .collect();
        Ring { name: format!("{} over {}", name, T::NAME), ops, extra, roots, ck, _p: PhantomData }
    }
}
impl<T: Elem> Scn for Ring<T> {
    type St = St<T>;
    fn label(&self) -> String {
        self.name.clone()
    }
    fn nops(&self) -> usize {
        self.ops.len()
    }
    fn op_str(&self, op: u16) -> String {
        show(self.op(op))
    }
    fn roots(&self) -> Vec<Vec<u16>> {
        self.roots.clone()
    }
    fn init(&self) -> St<T> {
        St::new(0)
    }
    fn step(&self, st: &mut St<T>, op: u16) -> Step {
        let op = self.op(op);
        let e0 = alloc::events();
        let r = match op {
            Op::Fault(e, k, o) => st.fault(*e, *k, o)?,
            Op::Extend(_, Hint::Lie) | Op::ExtendRef(_, Hint::Lie) | Op::FromIter(_, Hint::Lie) | Op::FromIterRef(_, Hint::Lie) => {
                // a wrong length hint: anything safe goes
                let mut allowed: Vec<u32> = st.m.iter().copied().collect();
                let (n0, c0) = (st.next, st.cap);
                let _ = catch_unwind(AssertUnwindSafe(|| st.raw(op)));
                allowed.extend((n0..st.next).map(|x| x % T::MOD));
                if st.cb.is_none() {
                    st.renew(c0);
                }
                let c = st.cb.as_ref().unwrap().capacity();
                st.resync(allowed, None, 0, vec![c])?;
                Flow::Go
            }
            _ => {
                st.raw(op)?;
                Flow::Go
            }
        };
        st.ev = alloc::events() - e0;
        if self.ck == Ck::NoAlloc && self.ops.contains(op) {
            ensure!(st.ev == 0, "{} allocator calls during {}", st.ev, show(op));
        }
        Ok(r)
    }
    fn key(&self, st: &St<T>) -> Vec<u64> {
        let cb = st.cb.as_ref().unwrap();
        let mut k = vec![st.m.len() as u64, st.cap as u64, st.faulted as u64];
        let (a, b) = cb.slices();
        k.push(a.len() as u64);
        k.push(b.len() as u64);
        #[cfg(miri)]
        for c in format!("{:?}", cb).bytes() {
            k.push(c as u64);
        }
        #[cfg(not(miri))]
        {
            // every word of the object, addresses masked
            let p = cb as *const Cb<T> as *const u64;
            for i in 0..std::mem::size_of::<Cb<T>>() / 8 {
                let w = unsafe { p.add(i).read_volatile() };
                k.push(if w > 1 << 24 { 1 } else { w });
            }
        }
        k
    }
    fn check(&self, st: &mut St<T>) -> Res {
        let m: Vec<u32> = st.m.iter().copied().collect();
        let (cap, faulted) = (st.cap, st.faulted);
        let cb = st.cb.as_mut().unwrap();
        match self.ck {
            Ck::Shape => shape(cb, &m, cap)?,
            Ck::Views | Ck::Safe => {
                full_views(cb, &m, cap)?;
                if !cfg!(miri) || m.len() < 2 {
                    oob(cb, &m, cap)?;
                    if m.len() <= 300 && !cfg!(miri) {
                        full_views(cb, &m, cap)?;
                    }
                }
            }
            Ck::Live | Ck::NoAlloc => {
                let v = vals(cb);
                ensure!(v == m, "content is {:?}, expected {:?}", brief(&v), brief(&m));
            }
        }
        if self.ck == Ck::Live && T::TRACKED && !faulted {
            ensure!(tok::live() == m.len(), "{} elements are alive, {} are stored", tok::live(), m.len());
        }
        if self.ck == Ck::Live && T::MOD == 1 && T::NAME == Zd::NAME {
            let l = ZLIVE.with(|z| z.get());
            ensure!(l == m.len() as i64, "{} zero-sized elements are alive, {} are stored", l, m.len());
        }
        Ok(())
    }
    fn end(&self, mut st: St<T>) -> Res {
        let mut cb = st.cb.take().unwrap();
        let faulted = st.faulted;
        if self.ck == Ck::Shape || faulted {
            // empty it from both ends, refill it, overflow it
            let mut front = st.m.len() % 2 == 0;
            while !st.m.is_empty() {
                let (w, g) = if front { (st.m.pop_front(), cb.pop_front()) } else { (st.m.pop_back(), cb.pop_back()) };
                let g = g.as_ref().map(|x| x.rd());
                ensure!(g == w, "emptying: {} is {:?}, expected {:?}", if front { "pop_front()" } else { "pop_back()" }, g, w);
                front = !front;
            }
            ensure!(cb.pop_front().is_none() && cb.pop_back().is_none(), "emptied buffer still yields");
            shape(&cb, &[], st.cap)?;
            if st.cap <= 2000 {
                for i in 0..st.cap + 1 {
                    let (x, v) = st.fresh();
                    if i % 3 == 2 {
                        cb.push_front(x);
                        st.m_push_f(v);
                    } else {
                        cb.push_back(x);
                        st.m_push_b(v);
                    }
                }
                let m: Vec<u32> = st.m.iter().copied().collect();
                shape(&cb, &m, st.cap)?;
                ensure!(vals(&cb) == m, "refilled buffer has {:?}, expected {:?}", brief(&vals(&cb)), brief(&m));
            }
        }
        lib(move || drop(cb));
        drop(st.other.take());
        if !faulted {
            if T::TRACKED {
                ensure!(tok::live() == 0, "{} elements are alive after the buffer was dropped", tok::live());
            }
            if T::NAME == Zd::NAME {
                let l = ZLIVE.with(|z| z.get());
                ensure!(l == 0, "{} zero-sized elements are alive after the buffer was dropped", l);
            }
            if self.ck == Ck::Safe && !T::NAME.contains("Box") && !T::NAME.contains("String") {
                ensure!(alloc::tagged_live() <= 0, "{} heap blocks of the buffer were never freed", alloc::tagged_live());
            }
        }
        Ok(())
    }
}
impl<T: Elem> Ring<T> {
    fn op(&self, i: u16) -> &Op {
        let i = i as usize;
        if i < self.ops.len() {
            &self.ops[i]
        } else {
            &self.extra[i - self.ops.len()]
        }
    }
}

// ---- alphabets ------------------------------------------------------------------------------------
fn deque() -> Vec<Op> {
    vec![Op::PushB, Op::PushF, Op::PopB, Op::PopF]
}
fn idx(cap: usize) -> Vec<usize> {
    let mut v = if cap <= 12 { (0..cap).collect() } else { vec![0, 1, 2, cap / 2 - 1, cap / 2, cap / 2 + 1, cap - 3, cap - 2, cap - 1] };
    v.dedup();
    v
}
fn writes(cap: usize) -> Vec<Op> {
    let mut v = vec![Op::FirstMut, Op::LastMut, Op::IterMutAll, Op::SlicesMutAll, Op::ForMut];
    for i in idx(cap) {
        v.push(Op::Set(i));
        v.push(Op::IterMutAt(i, false));
        v.push(Op::IterMutAt(i, true));
    }
    v.push(Op::Set(cap));
    v.push(Op::Set(cap + 1));
    v.push(Op::Set(usize::MAX));
    v
}
fn rearr(cap: usize) -> Vec<Op> {
    let mut v = vec![Op::Reverse, Op::Linearize, Op::LinearizeW];
    let mut is = idx(cap);
    is.extend([cap, cap + 1]);
    if cap <= 12 {
        is.push(usize::MAX)
    }
    for &i in &is {
        for &j in &is {
            v.push(Op::Swap(i, j));
        }
    }
    v
}
fn bulk(n: usize, build: bool) -> Vec<Op> {
    let mut v = vec![Op::Clear];
    for k in 0..=n + 2 {
        for h in HINTS {
            if h != Hint::Huge || k == n {
                v.push(Op::Extend(k, h));
                v.push(Op::ExtendRef(k, h));
            }
        }
    }
    for k in 0..=n {
        v.push(Op::Resize(k));
    }
    for c in 0..=n.min(4) {
        for l in 0..=c {
            for r in 0..=c {
                v.push(Op::Append(c, r, l));
            }
        }
    }
    if build {
        for k in 0..=n {
            for s in 0..3 {
                v.push(Op::FromVec(k, s));
            }
            for h in HINTS {
                if h != Hint::Huge || k == n {
                    v.push(Op::FromIter(k, h));
                    v.push(Op::FromIterRef(k, h));
                }
            }
            v.push(Op::New(k));
            v.push(Op::WithCap(k));
        }
    }
    v
}
fn caps(r: std::ops::RangeInclusive<usize>) -> Vec<Vec<Op>> {
    r.map(|c| vec![Op::New(c)]).collect()
}
/// Layouts of buffers with boundary capacities: every combination of boundary rotation and length.
fn lattice(cap: usize, dense: bool) -> Vec<Vec<Op>> {
    let n = cap + 1;
    let mut rs = if dense { vec![0, 1, 2, n / 2, n - 2, n - 1] } else { vec![0, n / 2, n - 1] };
    let mut ls = if dense { vec![0, 1, 2, n / 2, cap.saturating_sub(1), cap] } else { vec![0, n / 2, cap] };
    // rotations that put either end of the content next to the physical end
    let mut out = vec![];
    rs.sort();
    rs.dedup();
    ls.sort();
    ls.dedup();
    for &l in &ls {
        let mut r2 = rs.clone();
        r2.push((n - l % n) % n);
        r2.push((n + 1 - l % n) % n);
        r2.sort();
        r2.dedup();
        for r in r2 {
            let mut w = vec![Op::New(cap)];
            if r > 0 {
                w.push(Op::Spin(r))
            }
            if l > 0 {
                w.push(Op::Fill(l))
            }
            out.push(w);
        }
    }
    out
}
fn big_caps(quick: bool) -> Vec<(usize, bool)> {
    let mut v = vec![];
    for c in [7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257] {
        v.push((c, true));
    }
    if quick {
        v.extend([(1023, false), (1024, false), (4095, false), (65535, false), (65536, false)]);
    } else {
        for c in [100, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097] {
            v.push((c, true));
        }
        for c in [8192, 10000, 16384, 32767, 32768, 65535, 65536, 65537] {
            v.push((c, false));
        }
    }
    v
}
fn lattice_jobs<T: Elem>(js: &mut Vec<Box<dyn Job>>, quick: bool, ck: Ck, what: &str, ops: &dyn Fn(usize) -> Vec<Op>) {
    for (c, dense) in big_caps(quick) {
        let depth = if c < 20 && !quick { 2 } else { 1 };
        js.push(explore(Ring::<T>::new(&format!("{}, boundary layouts of capacity {}", what, c), ck, ops(c), lattice(c, dense)), Mode::Words { depth }));
    }
}

fn faults(ops: &[Op], n: u32) -> Vec<Op> {
    let mut v = vec![];
    for o in ops {
        for e in [Ev::Drop, Ev::Clone, Ev::Next] {
            let relevant = match e {
                Ev::Drop => true,
                Ev::Clone => matches!(o, Op::ExtendRef(..) | Op::CloneDrop | Op::CloneReplace | Op::CloneFrom(..) | Op::CloneOnto(..) | Op::FromIterRef(..)),
                Ev::Next => matches!(o, Op::Extend(..) | Op::ExtendRef(..) | Op::FromIter(..) | Op::FromIterRef(..)),
                Ev::Hash | Ev::Eq => false,
            };
            if relevant {
                for k in 0..n {
                    v.push(Op::Fault(e, k, Box::new(o.clone())));
                }
            }
        }
    }
    v
}
fn small_progs() -> Vec<Prog> {
    let p = |nth: &[usize], t: Term| Prog { nth: nth.to_vec(), t };
    vec![
        p(&[], Term::Drop),
        p(&[0], Term::Drop),
        p(&[0, 0], Term::Drop),
        p(&[1], Term::Drop),
        p(&[], Term::Collect),
        p(&[0], Term::Collect),
        p(&[], Term::Count),
        p(&[], Term::Last),
        p(&[], Term::Skip(2)),
        p(&[], Term::Exhaust),
    ]
}
fn everything(n: usize) -> Vec<Op> {
    let mut v = deque();
    v.extend(writes(n).into_iter().filter(|o| !matches!(o, Op::Set(x) if *x > n)));
    v.extend([Op::Reverse, Op::Linearize, Op::LinearizeW, Op::Swap(0, 1), Op::Swap(0, n - 1), Op::Swap(1, 1), Op::Swap(0, n)]);
    v.push(Op::Clear);
    for k in [0, 1, 2, n, n + 1] {
        v.push(Op::Extend(k, Hint::Exact));
        v.push(Op::Extend(k, Hint::Unknown));
        v.push(Op::ExtendRef(k, Hint::Exact));
        v.push(Op::Extend(k, Hint::Loose));
        v.push(Op::ExtendRef(k, Hint::Loose));
    }
    for k in 0..=n {
        v.push(Op::Resize(k));
        v.push(Op::FromVec(k, 0));
        v.push(Op::FromVec(k, 2));
        v.push(Op::FromIter(k, Hint::Exact));
        v.push(Op::FromIter(k, Hint::Unknown));
        v.push(Op::FromIter(k, Hint::Loose));
        v.push(Op::FromIterRef(k, Hint::Exact));
        v.push(Op::FromIterRef(k, Hint::Loose));
        v.push(Op::DropNew(k));
    }
    for (c, r, l) in [(0, 0, 0), (1, 0, 1), (2, 0, 2), (2, 2, 2), (3, 2, 3), (3, 3, 1)] {
        v.push(Op::Append(c, r, l));
    }
    for (c, r, l) in [(0, 0, 0), (1, 1, 1), (2, 2, 2), (3, 1, 0), (3, 2, 3), (3, 3, 1)] {
        v.push(Op::CloneFrom(c, r, l));
        v.push(Op::CloneOnto(c, r, l));
    }
    v.extend([Op::CloneReplace, Op::CloneDrop]);
    for p in small_progs() {
        v.push(Op::Drain(p.clone()));
        v.push(Op::Into(p));
    }
    v
}
fn safe_ops(n: usize) -> Vec<Op> {
    let mut v = everything(n);
    for k in 0..=2 {
        v.push(Op::DrainForget(k));
        v.push(Op::IntoForget(k));
    }
    for k in [0, 1, n] {
        v.push(Op::Extend(k, Hint::Lie));
        v.push(Op::ExtendRef(k, Hint::Lie));
        v.push(Op::FromIter(k, Hint::Lie));
        v.push(Op::FromIterRef(k, Hint::Lie));
    }
    v.push(Op::ReadAll);
    v
}

/// Which of Send and Sync a type has.
struct Marks<T>(PhantomData<T>);
trait HasSend {
    fn send(&self) -> bool;
}
trait HasSync {
    fn sync(&self) -> bool;
}
impl<T: Send> HasSend for &Marks<T> {
    fn send(&self) -> bool {
        true
    }
}
impl<T: Sync> HasSync for &Marks<T> {
    fn sync(&self) -> bool {
        true
    }
}
impl<T> HasSend for Marks<T> {
    fn send(&self) -> bool {
        false
    }
}
impl<T> HasSync for Marks<T> {
    fn sync(&self) -> bool {
        false
    }
}
/// Safe code must not be able to move or share elements across threads that may not be: what a collection or
/// iterator may do follows from what its parts may do.
fn marks() -> Box<dyn Job> {
    use advanced_collections::circular_buffer::{Drain, IntoIter, Iter, IterMut};
    use std::cell::{Cell, RefCell};
    use std::rc::Rc;
    use std::sync::MutexGuard;
    let mut cs: Vec<(String, [bool; 2], [bool; 2])> = vec![];
    macro_rules! m {
        ($t:ty) => {{
            let x = Marks::<$t>(PhantomData);
            [(&&x).send(), (&&x).sync()]
        }};
    }
    macro_rules! one {
        ($e:ty) => {
            let e = m!($e);
            let n = std::any::type_name::<$e>();
            cs.push((format!("CircularBuffer<{}>", n), m!(Cb<$e>), e));
            cs.push((format!("IntoIter<{}>", n), m!(IntoIter<$e>), e));
            cs.push((format!("Drain<{}>", n), m!(Drain<'static, $e>), e));
            cs.push((format!("IterMut<{}>", n), m!(IterMut<'static, $e>), e));
            cs.push((format!("Iter<{}>", n), m!(Iter<'static, $e>), [e[1], e[1]]));
        };
    }
    one!(u32);
    one!(String);
    one!(Rc<u8>);
    one!(Cell<u8>);
    one!(RefCell<Rc<u8>>);
    one!(MutexGuard<'static, u8>);
    one!(*mut u8);
    one!(&'static Cell<u8>);
    one!(&'static mut Cell<u8>);
    let c2 = cs.clone();
    cases(
        "use across threads",
        cs.len(),
        move |i| format!("{}: (Send, Sync) = {:?}, elements allow {:?}", c2[i].0, c2[i].1, c2[i].2),
        move |i| {
            let (n, has, may) = &cs[i];
            ensure!(!has[0] || may[0], "{} is Send although its elements must not leave their thread", n);
            ensure!(!has[1] || may[1], "{} is Sync although its elements must not be shared between threads", n);
            Ok(())
        },
    )
}

macro_rules! each_type {
    ($f:ident!($($a:tt)*)) => { $f!(Tok, $($a)*); $f!(u32, $($a)*); $f!(u8, $($a)*); $f!(char, $($a)*); $f!(bool, $($a)*); $f!(&'static u32, $($a)*); $f!(Box<u32>, $($a)*);
        $f!(String, $($a)*); $f!(Option<Box<u32>>, $($a)*); $f!((), $($a)*); $f!(NonZeroU8, $($a)*); $f!([u64; 5], $($a)*); $f!([u64; 40], $($a)*); $f!(Al, $($a)*); $f!(Zd, $($a)*); };
}

fn jobs(prop: &str, quick: bool) -> Vec<Box<dyn Job>> {
    let mut js: Vec<Box<dyn Job>> = vec![];
    let bfs = Mode::Bfs { max_states: 2_000_000 };
    macro_rules! per_type {
        ($t:ty, $name:expr, $ck:expr, $ops:expr, $roots:expr) => {
            js.push(explore(Ring::<$t>::new($name, $ck, $ops, $roots), bfs))
        };
    }
    match prop {
        #[cfg(feature = "C01")]
        "C01" => {
            let n = if quick { 9 } else { 24 };
            for c in 0..=n {
                let r = vec![vec![Op::New(c)]];
                js.push(explore(Ring::<Tok>::new(&format!("deque of capacity {}", c), Ck::Shape, deque(), r.clone()), bfs));
                let mut o = deque();
                o.extend([Op::ReadAll, Op::Linearize, Op::Reverse]);
                js.push(explore(Ring::<u32>::new(&format!("deque of capacity {}", c), Ck::Shape, o.clone(), r.clone()), bfs));
                js.push(explore(Ring::<()>::new(&format!("deque of capacity {}", c), Ck::Shape, o, r), bfs));
            }
            for c in 0..=3 {
                let depth = if quick { 8 } else { 11 };
                js.push(explore(Ring::<u32>::new(&format!("deque of capacity {}, all histories", c), Ck::Shape, deque(), vec![vec![Op::New(c)]]), Mode::Words { depth }));
            }
            for c in [1usize, 2, 3, 4, 7, 8] {
                let (len, reps) = if quick { (3, 320) } else { (5, 640) };
                js.push(explore(Ring::<Tok>::new(&format!("deque of capacity {}, repeated histories", c), Ck::Shape, deque(), vec![vec![Op::New(c)]]), Mode::Pump { len, reps }));
            }
            for c in [1usize, 3] {
                js.push(explore(Ring::<u32>::new(&format!("deque of capacity {}, very long histories", c), Ck::Shape, deque(), vec![vec![Op::New(c)]]), Mode::Pump { len: if quick { 1 } else { 2 }, reps: 70_000 }));
            }
            lattice_jobs::<u32>(&mut js, quick, Ck::Shape, "deque", &|_| deque());
            js.push(huge(false));
        }
        #[cfg(feature = "C02")]
        "C02" => {
            let n = if quick { 6 } else { 9 };
            for c in 0..=n {
                let mut o = deque();
                o.extend(writes(c));
                let r = vec![vec![Op::New(c)]];
                js.push(explore(Ring::<Tok>::new(&format!("views, capacity {}", c), Ck::Views, o.clone(), r.clone()), bfs));
                if c <= 4 || !quick {
                    js.push(explore(Ring::<u32>::new(&format!("views, capacity {}", c), Ck::Views, o.clone(), r.clone()), bfs));
                    js.push(explore(Ring::<u8>::new(&format!("views, capacity {}", c), Ck::Views, o.clone(), r.clone()), bfs));
                    js.push(explore(Ring::<()>::new(&format!("views, capacity {}", c), Ck::Views, o.clone(), r.clone()), bfs));
                    js.push(explore(Ring::<[u64; 5]>::new(&format!("views, capacity {}", c), Ck::Views, o.clone(), r.clone()), bfs));
                    js.push(explore(Ring::<[u64; 40]>::new(&format!("views, capacity {}", c), Ck::Views, o.clone(), r), bfs));
                }
            }
            // layouts produced by the rearranging, bulk and cloning operations
            let n = if quick { 3 } else { 4 };
            js.push(explore(Ring::<Tok>::new("views after every operation", Ck::Views, everything(n), caps(0..=n)), bfs));
            for c in 1..=3 {
                let mut o = deque();
                o.extend([Op::Set(0), Op::Set(c - 1), Op::LastMut, Op::SlicesMutAll]);
                js.push(explore(Ring::<u32>::new(&format!("views, all histories, capacity {}", c), Ck::Views, o, vec![vec![Op::New(c)]]), Mode::Words { depth: if quick { 5 } else { 7 } }));
            }
            lattice_jobs::<u32>(&mut js, quick, Ck::Views, "views", &|c| {
                let mut o = deque();
                if c < 5000 {
                    o.extend(writes(c));
                } else {
                    o.extend([Op::LastMut, Op::FirstMut, Op::Set(c - 1), Op::IterMutAt(1, true), Op::SlicesMutAll]);
                }
                o
            });
        }
        #[cfg(feature = "C03")]
        "C03" => {
            let n = if quick { 6 } else { 10 };
            for c in 0..=n {
                let mut o = deque();
                o.extend(rearr(c));
                let r = vec![vec![Op::New(c)]];
                js.push(explore(Ring::<Tok>::new(&format!("rearranging, capacity {}", c), Ck::Views, o.clone(), r.clone()), bfs));
                if c <= 4 || !quick {
                    js.push(explore(Ring::<u8>::new(&format!("rearranging, capacity {}", c), Ck::Views, o.clone(), r.clone()), bfs));
                    js.push(explore(Ring::<()>::new(&format!("rearranging, capacity {}", c), Ck::Views, o.clone(), r.clone()), bfs));
                    js.push(explore(Ring::<[u64; 5]>::new(&format!("rearranging, capacity {}", c), Ck::Views, o.clone(), r.clone()), bfs));
                    js.push(explore(Ring::<[u64; 40]>::new(&format!("rearranging, capacity {}", c), Ck::Views, o.clone(), r.clone()), bfs));
                    js.push(explore(Ring::<Al>::new(&format!("rearranging, capacity {}", c), Ck::Views, o.clone(), r), bfs));
                }
            }
            for c in 1..=3 {
                let mut o = deque();
                o.extend([Op::Reverse, Op::Linearize, Op::Swap(0, c - 1), Op::Swap(c / 2, 0), Op::Resize(c + 1), Op::Resize(c)]);
                js.push(explore(Ring::<u32>::new(&format!("rearranging, all histories, capacity {}", c), Ck::Views, o, vec![vec![Op::New(c)]]), Mode::Words { depth: if quick { 5 } else { 6 } }));
            }
            lattice_jobs::<u32>(&mut js, quick, Ck::Views, "rearranging", &|c| {
                if c < 5000 {
                    rearr(c)
                } else {
                    vec![Op::Reverse, Op::Linearize, Op::Swap(0, c - 1), Op::Swap(1, c / 2)]
                }
            });
        }
        #[cfg(feature = "C04")]
        "C04" => {
            let caps_of = vast();
            js.push(vast_job(&caps_of, "deque", &[0, 1, 2, 3], if quick { 6 } else { 8 }));
            js.push(vast_job(&caps_of, "rearranging", &[0, 1, 3, 4, 5, 6, 7], if quick { 4 } else { 5 }));
            js.push(vast_job(&caps_of, "bulk operations", &[0, 1, 2, 5, 8, 9, 10, 11, 13], if quick { 4 } else { 5 }));
            js.push(vast_job(&caps_of, "drains", &[0, 1, 12, 8, 16], if quick { 5 } else { 6 }));
            js.push(vast_job(&caps_of, "copies and comparisons", &[0, 1, 2, 3, 14, 15], if quick { 5 } else { 6 }));
            let n = if quick { 4 } else { 6 };
            let mut o = deque();
            o.extend([Op::Linearize, Op::Reverse]);
            o.extend(bulk(n, true));
            macro_rules! all { ($t:ty,) => { if <$t as Elem>::TRACKED || !quick { per_type!($t, "bulk operations", Ck::Views, o.clone(), caps(0..=n)) } else {
                let n = 3; let mut o = deque(); o.extend(bulk(n, true)); per_type!($t, "bulk operations", Ck::Views, o, caps(0..=n)) } } }
            each_type!(all!());
            js.push(huge(false));
            js.push(huge(true));
            // extension and append far beyond the capacity
            for c in 0..=if quick { 3 } else { 6 } {
                let mut o = vec![Op::PushF, Op::PopB, Op::PopF];
                for k in 0..=5 * c + 4 {
                    o.push(Op::Extend(k, Hint::Exact));
                    o.push(Op::Extend(k, Hint::Unknown));
                    o.push(Op::Extend(k, Hint::Loose));
                    o.push(Op::ExtendRef(k, Hint::Exact));
                    o.push(Op::ExtendRef(k, Hint::Unknown));
                    o.push(Op::ExtendRef(k, Hint::Loose));
                }
                for c2 in 0..=3 * c + 3 {
                    for l in [0, 1, c2 / 2, c2.saturating_sub(1), c2] {
                        for r in [0, 1, c2 / 2 + 1, c2] {
                            if l <= c2 {
                                o.push(Op::Append(c2, r, l));
                            }
                        }
                    }
                }
                js.push(explore(Ring::<u32>::new(&format!("long extensions, capacity {}", c), Ck::Views, o, vec![vec![Op::New(c)]]), bfs));
            }
            lattice_jobs::<u32>(&mut js, quick, Ck::Views, "bulk operations", &|c| {
                let mut o = vec![Op::Clear];
                for k in [0, 1, c / 2, c - 1, c, c + 1, 2 * c, 2 * c + 3] {
                    o.push(Op::Resize(k));
                    o.push(Op::Extend(k, Hint::Exact));
                    if c < 5000 {
                        o.push(Op::Extend(k, Hint::Unknown));
                        o.push(Op::Extend(k, Hint::Loose));
                        o.push(Op::ExtendRef(k, Hint::Exact));
                        o.push(Op::ExtendRef(k, Hint::Loose));
                        o.push(Op::FromVec(k, 0));
                        o.push(Op::FromVec(k, 5));
                        o.push(Op::FromIter(k, Hint::Exact));
                        o.push(Op::FromIter(k, Hint::Unknown));
                        o.push(Op::FromIter(k, Hint::Loose));
                        o.push(Op::FromIterRef(k, Hint::Exact));
                        o.push(Op::New(k));
                    }
                    o.push(Op::Append(k, k / 2 + 1, k));
                    o.push(Op::Append(k, 0, k / 2));
                }
                o
            });
        }
        #[cfg(feature = "C05")]
        "C05" => {
            let n = if quick { 4 } else { 6 };
            let ps = progs(&[0, 1, 2], if quick { 3 } else { 4 });
            for c in 0..=n {
                let mut o = deque();
                for p in &ps {
                    o.push(Op::Drain(p.clone()));
                }
                js.push(explore(Ring::<Tok>::new(&format!("drain, capacity {}", c), Ck::Views, o, vec![vec![Op::New(c)]]), bfs));
                let mut o = deque();
                for p in &ps {
                    o.push(Op::Into(p.clone()));
                }
                js.push(explore(Ring::<Tok>::new(&format!("owning iteration, capacity {}", c), Ck::Views, o, vec![vec![Op::New(c)]]), bfs));
            }
            let ps = progs(&[0, 3, 100], 2);
            let mut o = deque();
            o.extend([Op::Resize(2), Op::Resize(5), Op::Linearize, Op::CloneReplace, Op::FromVec(4, 1)]);
            for p in &ps {
                o.push(Op::Drain(p.clone()));
                o.push(Op::Into(p.clone()));
            }
            js.push(explore(Ring::<u32>::new("drain and owning iteration", Ck::Views, o.clone(), caps(5..=5)), bfs));
            js.push(explore(Ring::<()>::new("drain and owning iteration", Ck::Views, o.clone(), caps(5..=5)), bfs));
            js.push(explore(Ring::<Box<u32>>::new("drain and owning iteration", Ck::Views, o, caps(5..=5)), bfs));
            for c in 1..=3 {
                let mut o = deque();
                for p in small_progs() {
                    o.push(Op::Drain(p));
                }
                js.push(explore(Ring::<Tok>::new(&format!("drain, all histories, capacity {}", c), Ck::Views, o, vec![vec![Op::New(c)]]), Mode::Words { depth: if quick { 4 } else { 5 } }));
            }
            lattice_jobs::<u32>(&mut js, quick, Ck::Views, "drain and owning iteration", &|c| {
                let mut o = vec![];
                for nth in [vec![], vec![0], vec![c / 2], vec![c - 1], vec![c], vec![0, c - 2]] {
                    for t in [Term::Drop, Term::Collect, Term::Count, Term::Last, Term::Exhaust, Term::Take(c - 1), Term::Skip(c - 1)] {
                        let p = Prog { nth: nth.clone(), t };
                        if c < 5000 || nth.len() < 2 {
                            o.push(Op::Drain(p.clone()));
                            o.push(Op::Into(p));
                        }
                    }
                }
                o
            });
        }
        #[cfg(feature = "C06")]
        "C06" => {
            let n = if quick { 4 } else { 6 };
            js.push(explore(Ring::<Tok>::new("element lifetimes", Ck::Live, everything(n), caps(0..=n)), bfs));
            js.push(explore(Ring::<Zd>::new("element lifetimes", Ck::Live, everything(n), caps(0..=n)), bfs));
            let mut o = deque();
            o.extend(bulk(n, true));
            o.extend(writes(n));
            js.push(explore(Ring::<Tok>::new("element lifetimes in bulk operations", Ck::Live, o, caps(0..=n)), bfs));
            for c in 0..=if quick { 3 } else { 5 } {
                let mut o = deque();
                for p in progs(&[0, 1], 2) {
                    o.push(Op::Drain(p.clone()));
                    o.push(Op::Into(p));
                }
                js.push(explore(Ring::<Tok>::new(&format!("element lifetimes in drains, capacity {}", c), Ck::Live, o, vec![vec![Op::New(c)]]), bfs));
            }
            for c in 0..=2 {
                let mut o = deque();
                o.extend([Op::CloneReplace, Op::CloneDrop, Op::Clear, Op::Resize(1), Op::Resize(3), Op::Extend(2, Hint::Exact), Op::Extend(3, Hint::Loose), Op::ExtendRef(2, Hint::Exact), Op::Append(2, 1, 2), Op::Linearize, Op::Drain(Prog { nth: vec![0], t: Term::Drop })]);
                js.push(explore(Ring::<Tok>::new(&format!("element lifetimes, all histories, capacity {}", c), Ck::Live, o, vec![vec![Op::New(c)]]), Mode::Words { depth: if quick { 4 } else { 6 } }));
            }
            lattice_jobs::<Tok>(&mut js, quick, Ck::Live, "element lifetimes", &|c| {
                let p = |nth: &[usize], t| Prog { nth: nth.to_vec(), t };
                let mut o = vec![Op::PushB, Op::PushF, Op::PopB, Op::PopF, Op::Clear, Op::CloneReplace, Op::CloneDrop, Op::DropNew(1), Op::Linearize, Op::Reverse, Op::IterMutAll];
                for k in [0, 1, c / 2, c - 1, c + 1, 2 * c] {
                    o.push(Op::Resize(k));
                    o.push(Op::Extend(k, Hint::Exact));
                    if c < 5000 {
                        o.push(Op::ExtendRef(k, Hint::Unknown));
                        o.push(Op::Append(k, k / 2, k));
                        o.push(Op::FromVec(k, 1));
                        o.push(Op::Drain(p(&[k], Term::Drop)));
                        o.push(Op::Into(p(&[k], Term::Drop)));
                    }
                }
                o
            });
        }
        #[cfg(feature = "C07")]
        "C07" => {
            let n = if quick { 3 } else { 5 };
            let p = |nth: &[usize], t| Prog { nth: nth.to_vec(), t };
            let mut core = vec![Op::PushB, Op::PushF, Op::Set(0), Op::FirstMut, Op::LastMut, Op::IterMutAll, Op::SlicesMutAll, Op::LinearizeW, Op::Clear, Op::CloneDrop, Op::CloneReplace];
            for k in 0..=n + 1 {
                core.push(Op::Resize(k));
                if k > 0 {
                    core.push(Op::Extend(k, Hint::Exact));
                    core.push(Op::ExtendRef(k, Hint::Exact));
                    core.push(Op::FromIter(k, Hint::Exact));
                    core.push(Op::FromIterRef(k, Hint::Unknown));
                }
            }
            core.extend([Op::Extend(2, Hint::Unknown), Op::Extend(3, Hint::Loose), Op::ExtendRef(3, Hint::Unknown), Op::ExtendRef(2, Hint::Loose), Op::FromVec(2, 0), Op::FromVec(3, 2), Op::FromIter(3, Hint::Unknown)]);
            for (c, r, l) in [(1, 0, 1), (2, 0, 2), (2, 2, 2), (3, 2, 3), (n + 2, 1, n + 2)] {
                core.push(Op::Append(c, r, l));
            }
            for (nth, t) in [(vec![], Term::Drop), (vec![0], Term::Drop), (vec![1], Term::Drop), (vec![2], Term::Drop), (vec![], Term::Count), (vec![], Term::Last), (vec![], Term::Skip(2)), (vec![0], Term::Skip(1)), (vec![], Term::StepBy(2))] {
                core.push(Op::Drain(p(&nth, t.clone())));
                core.push(Op::Into(p(&nth, t)));
            }
            core.push(Op::DropNew(2));
            for (c, r, l) in [(1, 0, 1), (2, 2, 2), (3, 2, 3)] {
                core.push(Op::CloneFrom(c, r, l));
                core.push(Op::CloneOnto(c, r, l));
            }
            let mut o = deque();
            o.extend([Op::Linearize, Op::Reverse, Op::Clear, Op::Resize(n), Op::Resize(1), Op::CloneReplace, Op::CloneDrop, Op::Extend(2, Hint::Exact), Op::Drain(p(&[], Term::Collect))]);
            o.extend(faults(&core, n as u32 + 4));
            js.push(explore(Ring::<Tok>::new("panics in user code", Ck::Views, o, caps(0..=n)), bfs));
            // several panics in one history, no merging of states
            for c in 1..=2 {
                let mut core = vec![Op::PushB, Op::PushF, Op::Clear, Op::Resize(1), Op::Extend(2, Hint::Exact), Op::ExtendRef(2, Hint::Exact), Op::CloneReplace, Op::Append(2, 1, 2)];
                if !quick {
                    core.extend([Op::Resize(3), Op::Drain(p(&[1], Term::Drop)), Op::Into(p(&[0], Term::Drop))]);
                }
                let mut o = vec![Op::PushB, Op::PushF, Op::PopB];
                o.extend(faults(&core, 3));
                js.push(explore(Ring::<Tok>::new(&format!("repeated panics, all histories, capacity {}", c), Ck::Views, o, vec![vec![Op::New(c), Op::Fill(c)]]), Mode::Words { depth: if quick { 3 } else { 4 } }));
            }
            for c in if quick { vec![8, 33, 130, 400] } else { vec![8, 15, 16, 33, 64, 65, 129, 300, 520, 1100] } {
                let mut core = vec![Op::PushB, Op::PushF, Op::Clear, Op::CloneDrop, Op::CloneReplace, Op::DropNew(1)];
                for k in [1, c / 2, c - 1, c, c + 1] {
                    core.push(Op::Resize(k));
                    core.push(Op::Extend(k, Hint::Exact));
                    core.push(Op::ExtendRef(k, Hint::Exact));
                    core.push(Op::FromIter(k, Hint::Exact));
                    core.push(Op::FromIterRef(k, Hint::Exact));
                    core.push(Op::Append(k, 1, k));
                    core.push(Op::Drain(p(&[k], Term::Drop)));
                }
                let mut o = vec![];
                for f in faults(&core, c as u32 + 2) {
                    if let Op::Fault(_, k, _) = &f {
                        if [0, 1, 2, c as u32 / 2, c as u32 - 2, c as u32 - 1, c as u32, c as u32 + 1].contains(k) {
                            o.push(f)
                        }
                    }
                }
                js.push(explore(Ring::<Tok>::new(&format!("panics in user code, boundary layouts of capacity {}", c), Ck::Views, o, lattice(c, !quick && c < 200)), Mode::Words { depth: 1 }));
            }
        }
        #[cfg(feature = "C08")]
        "C08" => {
            let n = if quick { 3 } else { 5 };
            macro_rules! all { ($t:ty,) => { per_type!($t, "memory safety", Ck::Safe, safe_ops(n), caps(0..=n)) } }
            each_type!(all!());
            js.push(marks());
            if !cfg!(miri) {
                lattice_jobs::<String>(&mut js, quick, Ck::Safe, "memory safety", &|c| {
                    let mut o = deque();
                    o.extend([Op::Linearize, Op::Reverse, Op::CloneReplace, Op::Clear, Op::LastMut, Op::Set(c - 1), Op::Resize(c + 1), Op::Resize(c - 1), Op::Extend(c, Hint::Exact), Op::Extend(2, Hint::Lie), Op::FromVec(c, 1), Op::Append(c, 1, c)]);
                    o
                });
            }
        }
        #[cfg(feature = "C09")]
        "C09" => js.extend(cmp_jobs(quick)),
        #[cfg(feature = "C10")]
        "C10" => {
            let n = if quick { 5 } else { 8 };
            let noalloc = |n: usize| {
                let mut o = deque();
                o.extend(writes(n).into_iter().filter(|x| !matches!(x, Op::Set(i) if *i >= n)));
                o.extend([Op::Reverse, Op::Linearize, Op::LinearizeW, Op::Clear, Op::ReadAll]);
                if n > 1 {
                    o.extend([Op::Swap(0, 1), Op::Swap(0, n - 1), Op::Swap(1, 1)]);
                }
                for k in [0, 1, 2, n, n + 1, 3 * n + 1] {
                    for h in HINTS {
                        o.push(Op::Extend(k, h));
                        o.push(Op::ExtendRef(k, h));
                    }
                }
                for p in small_progs() {
                    if p.t != Term::Collect {
                        o.push(Op::Drain(p));
                    }
                }
                o
            };
            for c in 0..=n {
                // index operations are only enabled where they are in range
                let o: Vec<Op> = noalloc(c).into_iter().map(|o| o).collect();
                macro_rules! one { ($t:ty,) => { js.push(explore(NoAlloc(Ring::<$t>::new(&format!("allocator use, capacity {}", c), Ck::NoAlloc, o.clone(), vec![vec![Op::New(c)]])), bfs)) } }
                one!(Tok,);
                one!(u32,);
                one!(u8,);
                one!((),);
                one!(Al,);
                one!([u64; 5],);
                one!([u64; 40],);
            }
            // buffers of every origin
            let mut o = noalloc(3);
            o.retain(|x| !matches!(x, Op::Append(..)));
            let mut roots = caps(3..=3);
            for k in 0..=3 {
                for s in 0..3 {
                    roots.push(vec![Op::FromVec(k, s)]);
                }
                roots.push(vec![Op::FromIter(k, Hint::Exact)]);
                roots.push(vec![Op::FromIter(k, Hint::Unknown)]);
                roots.push(vec![Op::FromIterRef(k, Hint::Exact)]);
                roots.push(vec![Op::WithCap(k)]);
                roots.push(vec![Op::New(3), Op::Fill(3), Op::Resize(k)]);
                roots.push(vec![Op::New(k), Op::Fill(2), Op::CloneReplace]);
            }
            js.push(explore(NoAlloc(Ring::<u32>::new("allocator use, every origin", Ck::NoAlloc, o, roots)), bfs));
            for (c, dense) in big_caps(quick) {
                let mut o = deque();
                o.extend([Op::Reverse, Op::Linearize, Op::Clear, Op::ReadAll, Op::Swap(0, c - 1), Op::Extend(c + 1, Hint::Exact), Op::Extend(c / 2, Hint::Unknown), Op::ExtendRef(c + 1, Hint::Exact), Op::Drain(Prog { nth: vec![c / 2], t: Term::Drop }), Op::Drain(Prog { nth: vec![], t: Term::Count })]);
                js.push(explore(NoAlloc(Ring::<u32>::new(&format!("allocator use, boundary layouts of capacity {}", c), Ck::NoAlloc, o.clone(), lattice(c, dense))), Mode::Words { depth: 1 }));
                if c < 5000 {
                    js.push(explore(NoAlloc(Ring::<[u64; 5]>::new(&format!("allocator use, boundary layouts of capacity {}", c), Ck::NoAlloc, o, lattice(c, dense))), Mode::Words { depth: 1 }));
                }
            }
            js.push(append_noalloc(quick));
        }
        _ => {}
    }
    js
}

/// Capacities no allocation can provide: refused with a panic that leaves an existing buffer as it was, or
/// really delivered.
fn huge(resize: bool) -> Box<dyn Job> {
    const BIG: [usize; 9] = [usize::MAX, usize::MAX - 1, usize::MAX - 2, usize::MAX - 3, usize::MAX / 2 + 1, usize::MAX / 2, usize::MAX / 4 + 1, usize::MAX / 4, 1 << 61];
    let mut cs = vec![];
    for b in BIG {
        if resize {
            for c in 0..=4 {
                for r in 0..=c {
                    for l in 0..=c {
                        cs.push((b, c, r, l));
                    }
                }
            }
        } else {
            cs.push((b, 0, 0, 0));
        }
    }
    let c2 = cs.clone();
    cases(
        if resize { "resizing to a capacity that cannot be allocated" } else { "creating a buffer of a capacity that cannot be allocated" },
        cs.len(),
        move |i| format!("capacity {}{}", c2[i].0, if resize { format!(", buffer of capacity {}, start {}, len {}", c2[i].1, c2[i].2, c2[i].3) } else { String::new() }),
        move |i| {
            let (b, c, r, l) = cs[i];
            let mut st = St::<Tok>::new(0);
            if resize {
                let (mut a, v) = st.build(c, r, l);
                let refused = catch_unwind(AssertUnwindSafe(|| a.resize(b))).is_err();
                let cap = if refused { c } else { b };
                ensure!(a.capacity() == cap, "capacity() is {} after resize({}) {}", a.capacity(), b, if refused { "panicked" } else { "returned" });
                full_views(&mut a, &v, cap)?;
                let (x, y) = st.fresh();
                a.push_back(x);
                let mut w = v;
                w.push(y);
                if w.len() > cap {
                    w.remove(0);
                }
                full_views(&mut a, &w, cap)?;
                ensure!(tok::live() == w.len(), "{} elements are alive, {} are stored", tok::live(), w.len());
            } else {
                for f in [Cb::<u32>::new as fn(usize) -> Cb<u32>, Cb::<u32>::with_capacity] {
                    if let Ok(mut a) = catch_unwind(|| f(b)) {
                        ensure!(a.capacity() == b, "capacity() is {}, {} was requested", a.capacity(), b);
                        full_views(&mut a, &[], b)?;
                        a.push_back(7);
                        a.push_front(8);
                        full_views(&mut a, &[8, 7], b)?;
                    }
                    mc::obs();
                }
            }
            Ok(())
        },
    )
}

thread_local! { static ZS: std::cell::Cell<i64> = const { std::cell::Cell::new(0) }; }
/// Zero-sized, counted.
struct Zs;
impl Zs {
    fn new() -> Zs {
        ZS.with(|n| n.set(n.get() + 1));
        Zs
    }
}
impl Clone for Zs {
    fn clone(&self) -> Zs {
        Zs::new()
    }
}
impl Drop for Zs {
    fn drop(&mut self) {
        ZS.with(|n| n.set(n.get() - 1));
    }
}
impl PartialEq for Zs {
    fn eq(&self, _: &Zs) -> bool {
        true
    }
}
/// Buffers of zero-sized elements can have every capacity up to the largest number less one. Creating one may
/// take time proportional to the capacity, as may other operations: then there is nothing to explore (decided once per process).
fn vast() -> Vec<usize> {
    const BIG: [usize; 7] = [usize::MAX - 1, usize::MAX - 2, usize::MAX / 2 + 2, usize::MAX / 2 + 1, usize::MAX / 2, usize::MAX / 2 - 1, 1 << 62];
    let (tx, rx) = std::sync::mpsc::channel();
    for b in BIG {
        let tx = tx.clone();
        std::thread::spawn(move || {
            // every operation once, on wrapped content: only whether it ends matters here
            for o in 0..VAST_OPS.len() {
                let w = [0, 1, 1, o];
                let _ = catch_unwind(|| vast_word::<Zs>(b, &w, Zs::new, || None));
                let _ = catch_unwind(|| vast_word::<()>(b, &w, || (), || None));
            }
            let _ = tx.send(b);
        });
    }
    drop(tx);
    let end = std::time::Instant::now() + std::time::Duration::from_secs(10);
    let mut v = vec![];
    while let Ok(b) = rx.recv_timeout(end.saturating_duration_since(std::time::Instant::now())) {
        v.push(b);
    }
    v.sort();
    v
}
const VAST_OPS: [&str; 17] = [
    "push front", "push back", "pop front", "pop back", "reverse", "linearize", "swap first and last", "swap outside", "extend by 3", "append 2", "append to another", "clear", "drain 1, drop", "resize to the length", "clone",
    "compare", "owning iteration, rebuild",
];
fn vast_views<T: PartialEq>(a: &mut Cb<T>, n: usize, cap: usize) -> Res {
    ensure!(a.len() == n && a.is_empty() == (n == 0) && a.is_full() == (n == cap) && a.capacity() == cap, "len {}, empty {}, full {}, capacity {}; expected {} of {}", a.len(), a.is_empty(), a.is_full(), a.capacity(), n, cap);
    let (f, b, m) = (a.iter().take(n + 9).count(), a.iter().rev().take(n + 9).count(), a.iter_mut().take(n + 9).count());
    ensure!(f == n && b == n && m == n, "iterators show {} forward, {} backward and {} mutable of {}", f, b, m, n);
    let (x, y) = a.slices();
    ensure!(x.len().wrapping_add(y.len()) == n, "slices of {} and {}, expected {}", x.len(), y.len(), n);
    let (x, y) = a.slices_mut();
    ensure!(x.len().wrapping_add(y.len()) == n, "mutable slices of {} and {}, expected {}", x.len(), y.len(), n);
    ensure!(a.first().is_some() == (n > 0) && a.last().is_some() == (n > 0) && a.first_mut().is_some() == (n > 0) && a.last_mut().is_some() == (n > 0), "first or last of {}", n);
    for i in 0..n {
        let ok = catch_unwind(AssertUnwindSafe(|| {
            let _ = &a[i];
            let _ = &mut a[i];
        }));
        ensure!(ok.is_ok(), "access to element {} of {} panics", i, n);
    }
    for i in [n, cap, usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1] {
        if i >= n {
            let r = catch_unwind(AssertUnwindSafe(|| {
                let _ = &a[i];
            }));
            ensure!(r.is_err(), "access to element {} of {} does not panic", i, n);
        }
    }
    Ok(())
}
fn vast_word<T: Clone + PartialEq>(cap: usize, w: &[usize], mk: fn() -> T, live: fn() -> Option<i64>) -> Res {
    {
        let mut a = Cb::<T>::with_capacity(cap);
        let mut n = 0usize;
        vast_views(&mut a, n, cap)?;
        for &o in w {
            match o {
                0 => {
                    a.push_front(mk());
                    n += 1
                }
                1 => {
                    a.push_back(mk());
                    n += 1
                }
                2 => {
                    ensure!(a.pop_front().is_some() == (n > 0), "pop_front of {}", n);
                    n = n.saturating_sub(1)
                }
                3 => {
                    ensure!(a.pop_back().is_some() == (n > 0), "pop_back of {}", n);
                    n = n.saturating_sub(1)
                }
                4 => a.reverse(),
                5 => {
                    let l = a.linearize().len();
                    ensure!(l == n, "linearize gives {} of {}", l, n)
                }
                6 if n > 0 => a.swap(0, n - 1),
                7 => ensure!(catch_unwind(AssertUnwindSafe(|| a.swap(n, 0))).is_err(), "swap outside of {} does not panic", n),
                8 => {
                    a.extend((0..3).map(|_| mk()));
                    n += 3
                }
                9 => {
                    let mut b = Cb::<T>::from(vec![mk(), mk()]);
                    a.append(&mut b);
                    vast_views(&mut b, 0, 2)?;
                    n += 2
                }
                10 => {
                    let mut b = Cb::<T>::with_capacity(cap);
                    b.push_front(mk());
                    b.append(&mut a);
                    vast_views(&mut b, n + 1, cap)?;
                    n = 0
                }
                11 => {
                    a.clear();
                    n = 0
                }
                12 => {
                    let k = a.drain().take(1).count();
                    ensure!(k == n.min(1), "drain gives {} of {}", k, n);
                    n -= k
                }
                13 => {
                    a.resize(n);
                    vast_views(&mut a, n, n)?;
                    // (resizing to a vast capacity takes long)
                    let mut b = Cb::<T>::with_capacity(cap);
                    b.append(&mut a);
                    a = b
                }
                14 => {
                    let mut b = a.clone();
                    vast_views(&mut b, n, cap)?;
                    a = b
                }
                15 => {
                    let mut b = Cb::<T>::from((0..n).map(|_| mk()).collect::<Vec<_>>());
                    ensure!(a == b && a == *b.linearize(), "not equal to a buffer with the same content");
                    b.resize(n + 1);
                    b.push_back(mk());
                    ensure!(a != b, "equal to a longer buffer");
                }
                16 => {
                    let mut k = 0;
                    for x in a {
                        drop(x);
                        k += 1;
                    }
                    ensure!(k == n, "owning iteration gives {} of {}", k, n);
                    a = Cb::with_capacity(cap);
                    n = 0
                }
                _ => {}
            }
            vast_views(&mut a, n, cap)?;
            if let Some(l) = live() {
                ensure!(l == n as i64, "{} elements are alive, {} are stored", l, n);
            }
        }
    }
    if let Some(l) = live() {
        ensure!(l == 0, "{} elements are alive after the buffer was dropped", l);
    }
    Ok(())
}
/// All words of `depth` operations given by their numbers, on every capacity of `vast()`.
fn vast_job(caps: &[usize], name: &str, ops: &[usize], depth: u32) -> Box<dyn Job> {
    let (ops, caps) = (ops.to_vec(), caps.to_vec());
    let per = ops.len().pow(depth);
    let (o2, c2) = (ops.clone(), caps.clone());
    let word = move |i: usize, ops: &[usize]| (0..depth).map(|d| ops[i / ops.len().pow(d) % ops.len()]).collect::<Vec<_>>();
    cases(
        format!("zero-sized elements, {} of the largest capacities: {}, {} operations", caps.len(), name, depth),
        per * caps.len() * 2,
        move |i| format!("capacity {}, {}{}", c2[i / 2 / per], if i & 1 == 0 { "()" } else { "zero-sized with destructor" }, word(i / 2 % per, &o2).iter().map(|o| format!("; {}", VAST_OPS[*o])).collect::<String>()),
        move |i| {
            let (c, w) = (caps[i / 2 / per], word(i / 2 % per, &ops));
            mc::obs();
            if i & 1 == 0 {
                vast_word::<()>(c, &w, || (), || None)
            } else {
                ZS.with(|n| n.set(0));
                vast_word::<Zs>(c, &w, Zs::new, || Some(ZS.with(|n| n.get())))
            }
        },
    )
}

/// C10: operations that would panic (and so allocate a message) are out of scope.
struct NoAlloc<T>(Ring<T>);
impl<T: Elem> Scn for NoAlloc<T> {
    type St = St<T>;
    fn label(&self) -> String {
        self.0.label()
    }
    fn nops(&self) -> usize {
        self.0.nops()
    }
    fn op_str(&self, op: u16) -> String {
        self.0.op_str(op)
    }
    fn roots(&self) -> Vec<Vec<u16>> {
        self.0.roots()
    }
    fn init(&self) -> St<T> {
        self.0.init()
    }
    fn step(&self, st: &mut St<T>, op: u16) -> Step {
        match self.0.op(op) {
            Op::Set(i) if *i >= st.m.len() => Ok(Flow::Disabled),
            Op::Swap(i, j) if *i >= st.m.len() || *j >= st.m.len() => Ok(Flow::Disabled),
            _ => self.0.step(st, op),
        }
    }
    fn key(&self, st: &St<T>) -> Vec<u64> {
        self.0.key(st)
    }
    fn check(&self, st: &mut St<T>) -> Res {
        self.0.check(st)
    }
    fn end(&self, st: St<T>) -> Res {
        self.0.end(st)
    }
}
fn append_noalloc(quick: bool) -> Box<dyn Job> {
    let n = if quick { 5 } else { 8 };
    let mut cs = vec![];
    for c1 in 0..=n {
        for r1 in 0..=c1 {
            for l1 in 0..=c1 {
                for c2 in 0..=n {
                    for r2 in 0..=c2 {
                        for l2 in 0..=c2 {
                            cs.push((c1, r1, l1, c2, r2, l2));
                        }
                    }
                }
            }
        }
    }
    let cs2 = cs.clone();
    cases(
        "allocator use of append",
        cs.len(),
        move |i| format!("append: (capacity, start, len, source capacity, source start, source len) = {:?}", cs2[i]),
        move |i| {
            let (c1, r1, l1, c2, r2, l2) = cs[i];
            let mut st = St::<u32>::new(0);
            let (mut a, _) = st.build(c1, r1, l1);
            let (mut b, _) = st.build(c2, r2, l2);
            let e = alloc::events();
            lib(|| a.append(&mut b));
            let d = alloc::events() - e;
            ensure!(d == 0, "{} allocator calls during append", d);
            let e = alloc::events();
            let x = lib(|| (a == b, a.partial_cmp(&b), a.cmp(&b), a < b));
            std::hint::black_box(x);
            let d = alloc::events() - e;
            ensure!(d == 0, "{} allocator calls during comparisons", d);
            Ok(())
        },
    )
}

// ---- C09 ------------------------------------------------------------------------------------------
fn seqs(alpha: u32, max: usize) -> Vec<Vec<u32>> {
    let mut v: Vec<Vec<u32>> = vec![vec![]];
    let mut k = 0;
    while k < v.len() {
        if v[k].len() < max {
            for a in 0..alpha {
                let mut w = v[k].clone();
                w.push(a);
                v.push(w);
            }
        }
        k += 1;
    }
    v
}
fn layout<T>(mk: &dyn Fn(u32) -> T, s: &[u32], cap: usize, start: usize) -> Cb<T> {
    let mut b = Cb::new(cap);
    for i in 0..start {
        b.push_back(mk(i as u32));
        b.pop_front();
    }
    for x in s {
        b.push_back(mk(*x))
    }
    b
}
fn f32s(n: u32) -> f32 {
    [0.0, 1.0, f32::NAN, -1.0][n as usize % 4]
}
fn cmp_one<T: PartialOrd>(mk: &dyn Fn(u32) -> T, a: &Cb<T>, b: &Cb<T>, sa: &[u32], sb: &[u32]) -> Res {
    let va: Vec<T> = sa.iter().map(|x| mk(*x)).collect();
    let vb: Vec<T> = sb.iter().map(|x| mk(*x)).collect();
    macro_rules! same {
        ($what:expr, $g:expr, $w:expr) => {
            let (g, w) = ($g, $w);
            ensure!(g == w, "{} of {:?} and {:?} is {:?}, expected {:?}", $what, sa, sb, g, w);
        };
    }
    same!("==", a == b, va == vb);
    same!("!=", a != b, va != vb);
    same!("== (slice)", *a == *vb.as_slice(), va == vb);
    same!("!= (slice)", *a != *vb.as_slice(), va != vb);
    same!("== (slice reference)", *a == vb.as_slice(), va == vb);
    same!("!= (slice reference)", *a != vb.as_slice(), va != vb);
    same!("partial_cmp", a.partial_cmp(b), va.partial_cmp(&vb));
    same!("<", a < b, va < vb);
    same!("<=", a <= b, va <= vb);
    same!(">", a > b, va > vb);
    same!(">=", a >= b, va >= vb);
    // the same object on both sides (elements need not be equal to themselves), and its own slices
    for (x, v) in [(a, &va), (b, &vb)] {
        same!("== with itself", x == x, v == v);
        same!("!= with itself", x != x, v != v);
        same!("partial_cmp with itself", x.partial_cmp(x), v.partial_cmp(v));
        same!("<= with itself", x <= x, v <= v);
        same!(">= with itself", x >= x, v >= v);
        let (p, q) = x.slices();
        let n = p.len();
        same!("== with its own slice", *x == *p, *v.as_slice() == v[..n]);
        same!("== with its own slice", *x == q, *v.as_slice() == v[n..]);
    }
    Ok(())
}
fn cmp_case<T: PartialOrd>(mk: &dyn Fn(u32) -> T, sa: &[u32], sb: &[u32], extra: usize, full: bool) -> Res {
    for ea in 0..=extra {
        let ca = sa.len() + ea;
        for ra in 0..=ca {
            let a = layout(mk, sa, ca, ra);
            for eb in 0..=extra {
                let cb = sb.len() + eb;
                for rb in 0..=cb {
                    if !full && ra != rb && ra + rb != ca.max(cb) && ra != 0 && rb != 0 {
                        continue;
                    }
                    let b = layout(mk, sb, cb, rb);
                    cmp_one(mk, &a, &b, sa, sb)?;
                }
            }
        }
    }
    Ok(())
}
fn ord_case<T: Ord + Clone>(mk: &dyn Fn(u32) -> T, sa: &[u32], sb: &[u32], extra: usize) -> Res {
    for ca in sa.len()..=sa.len() + extra {
        for ra in 0..=ca {
            let a = layout(mk, sa, ca, ra);
            let va: Vec<T> = sa.iter().map(|x| mk(*x)).collect();
            let b = layout(mk, sb, sb.len() + 1, ra % (sb.len() + 2));
            let vb: Vec<T> = sb.iter().map(|x| mk(*x)).collect();
            ensure!(a.cmp(&b) == va.cmp(&vb), "cmp of {:?} and {:?} is {:?}, expected {:?}", sa, sb, a.cmp(&b), va.cmp(&vb));
            ensure!(a.partial_cmp(&b) == Some(va.cmp(&vb)), "partial_cmp of {:?} and {:?}", sa, sb);
            let (x, y) = (a.clone().max(b.clone()), va.clone().max(vb.clone()));
            ensure!(x.iter().eq(y.iter()) && (va == vb || x.capacity() == if va > vb { ca } else { sb.len() + 1 }), "max of {:?} and {:?} is neither of them or the wrong one", sa, sb);
            let (x, y) = (a.clone().min(b.clone()), va.clone().min(vb));
            ensure!(x.iter().eq(y.iter()), "min of {:?} and {:?} is neither of them or the wrong one", sa, sb);
            ensure!(a.cmp(&a) == Ordering::Equal && a <= a && !(a < a), "cmp of {:?} with itself", sa);
        }
    }
    Ok(())
}
/// A value whose `!=`, `<`.. are all derived from what the harness says, to see which ones are consulted.
fn cmp_jobs(quick: bool) -> Vec<Box<dyn Job>> {
    let mut js: Vec<Box<dyn Job>> = vec![];
    let n = if quick { 3 } else { 4 };
    fn two(ss: Vec<Vec<u32>>, name: &str, f: impl Fn(&[u32], &[u32]) -> Res + Send + Sync + 'static) -> Box<dyn Job> {
        let k = ss.len();
        let s2 = ss.clone();
        cases(
            format!("comparisons of {}", name),
            k * k,
            move |i| format!("{:?} vs {:?}, all layouts", s2[i / k], s2[i % k]),
            move |i| f(&ss[i / k], &ss[i % k]),
        )
    }
    js.push(two(seqs(2, n + 1), "u32 sequences", move |a, b| cmp_case(&|x| x, a, b, 1, true)));
    js.push(two(seqs(3, n), "u32 sequences over three values", move |a, b| cmp_case(&|x| x, a, b, 1, false)));
    js.push(two(seqs(4, n), "f32 sequences with NaN", move |a, b| cmp_case(&f32s, a, b, 1, false)));
    js.push(two(seqs(2, n), "strings", move |a, b| cmp_case(&|x| ["a", "b"][x as usize % 2].to_string(), a, b, 1, false)));
    js.push(two(seqs(1, n + 2), "unit sequences", move |a, b| cmp_case(&|_| (), a, b, 2, true)));
    js.push(two(seqs(3, n), "ordered sequences", move |a, b| ord_case(&|x| x as i8 - 1, a, b, 2)));
    js.push(two(seqs(2, n + 1), "bytes", move |a, b| cmp_case(&|x| (x * 255) as u8, a, b, 1, false)));
    js.push(two(seqs(3, n), "signed bytes", move |a, b| cmp_case(&|x| x as i8 - 1, a, b, 1, false)));
    js.push(two(seqs(2, n), "tracked elements", move |a, b| ord_case(&|x| Tok::new(x), a, b, 1)));
    // boundary sizes: equal, differing in one position, prefix
    let caps: Vec<usize> = big_caps(quick).into_iter().map(|x| x.0).collect();
    let nc = caps.len();
    let caps2 = caps.clone();
    js.push(cases(
        "comparisons at boundary sizes",
        nc * 6 * 4,
        move |i| format!("{} elements, difference kind {}, layout {}", caps2[i / 24], i / 4 % 6, i % 4),
        move |i| {
            let c = caps[i / 24];
            let sa: Vec<u32> = (0..c as u32).map(|x| x % 7).collect();
            let mut sb = sa.clone();
            match i / 4 % 6 {
                0 => {}
                1 => sb[c - 1] += 1,
                2 => sb[0] = 9,
                3 => sb[c / 2] += 1,
                4 => {
                    sb.pop();
                }
                _ => sb.push(0),
            }
            let (ra, rb) = [(0, 0), (c / 2, 0), (1, c), (c / 2, c / 2 + 1)][i % 4];
            let a = layout(&|x| x, &sa, c, ra);
            let b = layout(&|x| x, &sb, c + 1, rb);
            if c > 3000 {
                return {
                    ensure!((a == b) == (sa == sb) && a.partial_cmp(&b) == sa.partial_cmp(&sb) && a.cmp(&b) == sa.cmp(&sb), "comparison of long buffers is wrong");
                    Ok(())
                };
            }
            cmp_one(&|x| x, &a, &b, &sa, &sb)
        },
    ));
    js.push(far_differences("u32", quick, |x| x));
    js.push(far_differences("u8", quick, |x| x as u8));
    js.push(far_differences("i16", quick, |x| x as i16 - 4));
    js.push(far_differences("[u64;2]", quick, |x| [7, x as u64]));
    for c in 0..=if quick { 3 } else { 5 } {
        js.push(explore(Pair::<Tok> { cap: c, ops: pair_ops(c), _p: PhantomData }, Mode::Bfs { max_states: 500_000 }));
        js.push(explore(Pair::<u32> { cap: c, ops: pair_ops(c), _p: PhantomData }, Mode::Bfs { max_states: 500_000 }));
    }
    js.push(explore(Pair::<String> { cap: 2, ops: pair_ops(2), _p: PhantomData }, Mode::Bfs { max_states: 500_000 }));
    js.push(explore(Pair::<()> { cap: 3, ops: pair_ops(3), _p: PhantomData }, Mode::Bfs { max_states: 500_000 }));
    js.push(explore(Pair::<Option<Box<u32>>> { cap: 2, ops: pair_ops(2), _p: PhantomData }, Mode::Bfs { max_states: 500_000 }));
    // clones at boundary sizes
    lattice_jobs::<Tok>(&mut js, quick, Ck::Views, "clones", &|_| vec![Op::CloneReplace, Op::CloneDrop]);
    js
}
/// One difference at each position of long buffers, alone and with an opposite one behind it.
fn far_differences<T: Clone + Ord + std::fmt::Debug + 'static>(name: &str, quick: bool, f: fn(u32) -> T) -> Box<dyn Job> {
    let ns: Vec<usize> = if quick { (1..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1023, 1024, 1025, 1500, 2600]).collect() } else { (1..=300).chain([511, 512, 513, 700, 1000, 1023, 1024, 1025, 1500, 2047, 2049, 3000, 4095, 4097, 5001, 8193, 10_001]).collect() };
    let n2 = ns.clone();
    cases(
        format!("comparisons of {} that differ at each position", name),
        ns.len() * 4,
        move |i| format!("{} elements, layout {}", n2[i / 4], i % 4),
        move |i| {
            let n = ns[i / 4];
            let ks: Vec<u32> = (0..n as u32).map(|x| x % 5 + 1).collect();
            let sa: Vec<T> = ks.iter().map(|x| f(*x)).collect();
            let (ra, rb) = [(0, 0), (n / 2, 0), (1, n), (n / 3, n / 2 + 1)][i % 4];
            let a: Cb<T> = layout(&f, &ks, n, ra);
            let mut b: Cb<T> = layout(&f, &ks, n + i % 2, rb);
            ensure!(a == b && b == a && a.cmp(&b) == Ordering::Equal && a == *sa && b == sa[..], "equal buffers are not equal");
            for p in 0..n {
                for up in [false, true] {
                    b[p] = f(if up { p as u32 % 5 + 2 } else { p as u32 % 5 });
                    for then in [n, p + 1, n - 1] {
                        if then != n && then <= p {
                            continue;
                        }
                        if then < n {
                            b[then] = f(if up { then as u32 % 5 } else { then as u32 % 5 + 2 });
                        }
                        let w = if up { Ordering::Less } else { Ordering::Greater };
                        ensure!(a != b && !(b == a) && b != *sa && !(b == &sa[..]), "buffers that differ at {} are equal", p);
                        ensure!(a.cmp(&b) == w && b.cmp(&a) == w.reverse() && a.partial_cmp(&b) == Some(w), "buffers that differ at {}: cmp is {:?}, expected {:?}", p, a.cmp(&b), w);
                        if then < n {
                            b[then] = f(then as u32 % 5 + 1);
                        }
                        if n > 600 && p % 16 != 0 {
                            break;
                        }
                    }
                    b[p] = f(p as u32 % 5 + 1);
                }
            }
            ensure!(a == b && a.cmp(&b) == Ordering::Equal, "equal buffers are not equal");
            Ok(())
        },
    )
}
/// Two buffers: every operation on either one, cloning in both directions.
#[derive(Clone, Debug, PartialEq)]
enum P2 {
    On(usize, Op),
    Clone(usize),
    CloneFrom(usize),
    Swap,
}
fn pair_ops(n: usize) -> Vec<P2> {
    let mut v = vec![P2::Clone(0), P2::Clone(1), P2::CloneFrom(0), P2::CloneFrom(1), P2::Swap];
    let mut o = deque();
    o.extend([Op::Linearize, Op::Reverse, Op::Clear, Op::LastMut, Op::FirstMut, Op::Resize(n), Op::Resize(n + 1), Op::IterMutAll, Op::Drain(Prog { nth: vec![0], t: Term::Drop })]);
    for w in 0..2 {
        for x in &o {
            v.push(P2::On(w, x.clone()));
        }
    }
    v
}
struct Pair<T> {
    cap: usize,
    ops: Vec<P2>,
    _p: PhantomData<fn() -> T>,
}
impl<T: Elem> Scn for Pair<T> {
    type St = [St<T>; 2];
    fn label(&self) -> String {
        format!("two buffers of capacity {} over {}", self.cap, T::NAME)
    }
    fn nops(&self) -> usize {
        self.ops.len()
    }
    fn op_str(&self, op: u16) -> String {
        match &self.ops[op as usize] {
            P2::On(w, o) => format!("{}.{}", ["a", "b"][*w], show(o)),
            P2::Clone(w) => format!("{} = {}.clone()", ["b", "a"][*w], ["a", "b"][*w]),
            P2::CloneFrom(w) => format!("{}.clone_from({})", ["b", "a"][*w], ["a", "b"][*w]),
            P2::Swap => "swap(a, b)".into(),
        }
    }
    fn init(&self) -> Self::St {
        let mut a = [St::new(self.cap), St::new(self.cap + 1)];
        a[1].next = 1000;
        a
    }
    fn step(&self, st: &mut Self::St, op: u16) -> Step {
        match &self.ops[op as usize] {
            P2::On(w, o) => st[*w].raw(o)?,
            P2::Clone(w) => {
                let c = st[*w].cb.as_ref().unwrap().clone();
                let (m, cap) = (st[*w].m.clone(), st[*w].cap);
                let o = &mut st[1 - *w];
                o.cb = Some(c);
                o.m = m;
                o.cap = cap;
            }
            P2::CloneFrom(w) => {
                let mut c = st[1 - *w].cb.take().unwrap();
                c.clone_from(st[*w].cb.as_ref().unwrap());
                let (m, cap) = (st[*w].m.clone(), st[*w].cap);
                let o = &mut st[1 - *w];
                o.cb = Some(c);
                o.m = m;
                o.cap = cap;
            }
            P2::Swap => {
                let [a, b] = st;
                std::mem::swap(a.cb.as_mut().unwrap(), b.cb.as_mut().unwrap());
                std::mem::swap(&mut a.m, &mut b.m);
                std::mem::swap(&mut a.cap, &mut b.cap);
            }
        }
        Ok(Flow::Go)
    }
    fn key(&self, st: &Self::St) -> Vec<u64> {
        let mut k = vec![];
        for s in st {
            let cb = s.cb.as_ref().unwrap();
            let (a, b) = cb.slices();
            k.extend([s.m.len() as u64, s.cap as u64, a.len() as u64, b.len() as u64]);
            for c in format!("{:?}", cb).bytes() {
                k.push(c as u64);
            }
        }
        // which elements the two have in common
        for x in &st[0].m {
            k.push(st[1].m.iter().position(|y| y == x).map_or(99, |p| p as u64));
        }
        k
    }
    fn check(&self, st: &mut Self::St) -> Res {
        for (w, s) in st.iter_mut().enumerate() {
            let m: Vec<u32> = s.m.iter().copied().collect();
            let cb = s.cb.as_mut().unwrap();
            shape(cb, &m, s.cap).map_err(|e| format!("{}: {}", ["a", "b"][w], e))?;
            let v = vals(cb);
            ensure!(v == m, "{} has {:?}, expected {:?}", ["a", "b"][w], v, m);
        }
        let (a, b) = (st[0].cb.as_ref().unwrap(), st[1].cb.as_ref().unwrap());
        let (va, vb): (Vec<T>, Vec<T>) = (st[0].m.iter().map(|x| T::mk(*x)).collect(), st[1].m.iter().map(|x| T::mk(*x)).collect());
        ensure!((a == b) == (va == vb), "== is {} for {:?} and {:?}", a == b, st[0].m, st[1].m);
        ensure!(a.partial_cmp(b) == va.partial_cmp(&vb), "partial_cmp is {:?} for {:?} and {:?}", a.partial_cmp(b), st[0].m, st[1].m);
        drop((va, vb));
        if T::TRACKED {
            let n = st[0].m.len() + st[1].m.len();
            ensure!(tok::live() == n, "{} elements are alive, {} are stored in both buffers", tok::live(), n);
        }
        Ok(())
    }
}

fn main() {
    main_with(jobs)
}
