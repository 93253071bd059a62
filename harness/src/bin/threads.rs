//! C38: objects used by two threads, under a scheduler of their own.
//! `threads run ...` / `replay ...`: every pair of operations, in every schedule with up to two switches at calls of user
//! code, against the same operations performed one after the other on one thread.
//! `threads list TIER OUT` / `show LINE` / `races FILE`: the same, few of them, for execution under Miri, whose race detector
//! sees every unsynchronised pair of accesses whatever the schedule.
#![allow(dead_code, unused_variables, unused_mut, unreachable_code)]
use advanced_collections::circular_buffer::CircularBuffer as Cb;
use advanced_collections::counter::Counter;
use advanced_collections::disjoint_set::DisjointSet;
use advanced_collections::interval::{Interval, LowerBound, UpperBound};
use mc::*;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::{HashMap, HashSet};
use std::fmt::{Debug, Display, Write as _};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::io::Write as _;
use std::marker::PhantomData;
use std::ops::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

// ---- the scheduler ----------------------------------------------------------------------------------
// Two threads take turns. No hand-over orders memory accesses (all relaxed): a race remains one.
static TURN: AtomicUsize = AtomicUsize::new(0);
static OVER: [AtomicBool; 2] = [AtomicBool::new(false), AtomicBool::new(false)];
thread_local! {
    /// Which of the two threads this is.
    static ME: Cell<usize> = const { Cell::new(2) };
    /// Calls of user code until it gives way.
    static LEFT: Cell<usize> = const { Cell::new(0) };
    static SWITCHED: Cell<bool> = const { Cell::new(false) };
}
fn wait(me: usize) {
    #[cfg(not(miri))]
    let t0 = std::time::Instant::now();
    let mut n = 0u32;
    while TURN.load(Relaxed) != me && !OVER[1 - me].load(Relaxed) {
        n += 1;
        // The other one may be waiting for what this one holds, a lock for instance: then this schedule does not exist.
        #[cfg(miri)]
        if n > 200 {
            break;
        }
        #[cfg(not(miri))]
        if n % 1024 == 0 && t0.elapsed().as_millis() > 40 {
            break;
        }
        if cfg!(miri) || n > 300 {
            std::thread::yield_now();
        } else {
            std::hint::spin_loop();
        }
    }
}
/// A call of user code.
fn point() {
    let me = ME.with(|m| m.get());
    if me == 2 {
        return;
    }
    let left = LEFT.with(|l| l.replace(l.get().saturating_sub(1)));
    if me == INSIDE {
        if left == 1 {
            interrupt()
        }
        return;
    }
    if left == 1 {
        SWITCHED.with(|s| s.set(true));
        TURN.store(1 - me, Relaxed);
        wait(me);
    }
}
// ---- the same in one thread (C39): operations in the middle of others -----------------------------
static NESTED: AtomicBool = AtomicBool::new(false);
/// A thread (`ME`) in an operation that is to be interrupted.
const INSIDE: usize = 3;
thread_local! {
    static INNER: RefCell<Option<Box<dyn FnOnce()>>> = const { RefCell::new(None) };
}
#[cold]
fn interrupt() {
    SWITCHED.with(|s| s.set(true));
    let inner = INNER.with(|i| i.borrow_mut().take());
    match inner {
        Some(f) => {
            ME.with(|m| m.set(2));
            f();
            ME.with(|m| m.set(INSIDE))
        }
        None => std::panic::panic_any(()),
    }
}
fn inside<A>(k: usize, inner: Option<Box<dyn FnOnce() + '_>>, f: impl FnOnce() -> A) -> Option<Result<A, ()>> {
    let inner: Option<Box<dyn FnOnce() + 'static>> = unsafe { std::mem::transmute(inner) };
    INNER.with(|i| *i.borrow_mut() = inner);
    LEFT.with(|m| m.set(k));
    SWITCHED.with(|m| m.set(false));
    ME.with(|m| m.set(INSIDE));
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| ());
    ME.with(|m| m.set(2));
    INNER.with(|i| i.borrow_mut().take());
    SWITCHED.with(|s| s.get()).then_some(r)
}
/// Runs `g` at the `k`-th call of user code of `f` (0: when it is over). None: there are fewer such calls.
fn nest<A, B>(k: usize, f: impl FnOnce() -> A, g: impl FnOnce() -> B) -> Option<(Result<A, ()>, Result<B, ()>)> {
    if k == 0 {
        let a = catch_unwind(AssertUnwindSafe(f)).map_err(|_| ());
        return Some((a, catch_unwind(AssertUnwindSafe(g)).map_err(|_| ())));
    }
    let mut b = None;
    let a = {
        let b = &mut b;
        inside(k, Some(Box::new(move || *b = Some(catch_unwind(AssertUnwindSafe(g)).map_err(|_| ())))), f)?
    };
    Some((a, b?))
}
/// A user's iterator.
struct Calls<I>(I);
impl<I: Iterator> Iterator for Calls<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if NESTED.load(Relaxed) {
            point()
        }
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
impl<T> Force<T> {
    fn get(self) -> T {
        self.0
    }
}
struct Shared<'a, T>(&'a T);
unsafe impl<T> Send for Shared<'_, T> {}
impl<'a, T> Shared<'a, T> {
    fn get(self) -> &'a T {
        self.0
    }
}
type Out = Vec<i64>;
/// Runs `f` and `g` on threads of their own. `f` begins, gives way at its `k[0]`-th call of user code (0: when it is over),
/// `g` gives way at its `k[1]`-th. None: there are fewer such calls.
fn pair<A, B>(k: [usize; 2], f: impl FnOnce() -> A, g: impl FnOnce() -> B) -> Option<(Result<A, ()>, Result<B, ()>)> {
    if NESTED.load(Relaxed) {
        return nest(k[0], f, g);
    }
    TURN.store(0, Relaxed);
    OVER[0].store(false, Relaxed);
    OVER[1].store(false, Relaxed);
    fn body<R>(me: usize, k: usize, f: impl FnOnce() -> R) -> (Result<R, ()>, bool) {
        wait(me);
        ME.with(|m| m.set(me));
        LEFT.with(|m| m.set(k));
        SWITCHED.with(|m| m.set(false));
        let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| ());
        ME.with(|m| m.set(2));
        OVER[me].store(true, Relaxed);
        TURN.store(1 - me, Relaxed);
        (r, k == 0 || SWITCHED.with(|s| s.get()))
    }
    let (a, b) = both(|| body(0, k[0], f), || body(1, k[1], g));
    (a.1 && b.1).then_some((a.0, b.0))
}
/// Runs `f` on another thread.
fn elsewhere<R>(f: impl FnOnce() -> R) -> R {
    threads(|| catch_unwind(AssertUnwindSafe(f)), None::<fn()>).0.unwrap_or_else(|e| std::panic::resume_unwind(e))
}
fn both<A, B>(f: impl FnOnce() -> A, g: impl FnOnce() -> B) -> (A, B) {
    let (a, b) = threads(f, Some(g));
    (a, b.unwrap())
}
#[cfg(not(miri))]
fn threads<A, B>(f: impl FnOnce() -> A, g: Option<impl FnOnce() -> B>) -> (A, Option<B>) {
    let (f, g) = (Force(f), g.map(Force));
    std::thread::scope(|s| {
        let h = s.spawn(move || {
            let f = f;
            Force(f.get()())
        });
        let i = g.map(|g| {
            s.spawn(move || {
                let g = g;
                Force(g.get()())
            })
        });
        (h.join().unwrap().get(), i.map(|i| i.join().unwrap().get()))
    })
}
/// The same; the interpreter needs long for threads of the standard library.
#[cfg(miri)]
fn threads<A, B>(f: impl FnOnce() -> A, g: Option<impl FnOnce() -> B>) -> (A, Option<B>) {
    extern "C" {
        fn pthread_create(t: *mut usize, a: *const u8, f: extern "C" fn(*mut u8) -> *mut u8, x: *mut u8) -> i32;
        fn pthread_join(t: usize, r: *mut *mut u8) -> i32;
    }
    struct Task<F, R>(Option<F>, Option<R>);
    extern "C" fn run<F: FnOnce() -> R, R>(x: *mut u8) -> *mut u8 {
        let t = unsafe { &mut *(x as *mut Task<F, R>) };
        t.1 = Some(t.0.take().unwrap()());
        x
    }
    fn start<F: FnOnce() -> R, R>(t: *mut Task<F, R>) -> usize {
        let mut id = 0;
        assert!(unsafe { pthread_create(&mut id, std::ptr::null(), run::<F, R>, t as *mut u8) } == 0);
        id
    }
    let mut h = Task(Some(f), None);
    let mut i = g.map(|g| Task(Some(g), None));
    let a = start(&raw mut h);
    let b = i.as_mut().map(|i| start(i as *mut _));
    let r = std::ptr::null_mut();
    unsafe { pthread_join(a, r) };
    if let Some(b) = b {
        unsafe { pthread_join(b, r) };
    }
    (h.1.unwrap(), i.map(|i| i.1.unwrap()))
}

// ---- user code ------------------------------------------------------------------------------------
#[derive(Default)]
struct H(u64);
impl Hasher for H {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0.rotate_left(7) ^ x as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        }
    }
    fn write_i64(&mut self, x: i64) {
        self.0 = (self.0.rotate_left(7) ^ x as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    }
}
type B = BuildHasherDefault<H>;

trait El: Clone + Eq + Hash + Ord + Debug + Display + 'static {
    const NAME: &'static str;
    fn mk(n: i32) -> Self;
    fn get(&self) -> i64;
    fn refs_c(_c: &mut Counter<Self, B>, _v: &[Self]) -> bool {
        false
    }
    fn refs_d(_c: &mut DisjointSet<Self, B>, _v: &[Self]) -> bool {
        false
    }
}
macro_rules! element {
    ($t:ident) => {
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                point();
                self.get() == o.get()
            }
        }
        impl Eq for $t {}
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $t {
            fn cmp(&self, o: &Self) -> Ordering {
                point();
                self.get().cmp(&o.get())
            }
        }
        impl Hash for $t {
            fn hash<S: Hasher>(&self, h: &mut S) {
                point();
                self.get().hash(h)
            }
        }
        impl Display for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                point();
                f.write_str(["0", "1", "2", "3", "4", "5"][self.get().rem_euclid(6) as usize])
            }
        }
        impl Debug for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                Display::fmt(self, f)
            }
        }
        element!($t; Add add AddAssign add_assign wrapping_add, Sub sub SubAssign sub_assign wrapping_sub, Mul mul MulAssign mul_assign wrapping_mul, Div div DivAssign div_assign wrapping_div);
        impl Neg for $t {
            type Output = $t;
            fn neg(self) -> $t {
                point();
                $t::mk(-self.get() as i32)
            }
        }
    };
    ($t:ident; $($tr:ident $f:ident $atr:ident $af:ident $w:ident),*) => {$(
        impl $tr for $t {
            type Output = $t;
            fn $f(self, o: $t) -> $t {
                point();
                $t::mk((self.get() as i32).$w(o.get() as i32))
            }
        }
        impl $atr for $t {
            fn $af(&mut self, o: $t) {
                point();
                *self = $t::mk((self.get() as i32).$w(o.get() as i32));
            }
        }
    )*};
}
struct Owned(Box<i32>);
element!(Owned);
impl Clone for Owned {
    fn clone(&self) -> Self {
        point();
        Owned(self.0.clone())
    }
}
impl Drop for Owned {
    fn drop(&mut self) {
        *self.0 = 77;
        point();
    }
}
impl El for Owned {
    const NAME: &'static str = "boxes";
    fn mk(n: i32) -> Self {
        Owned(Box::new(n))
    }
    fn get(&self) -> i64 {
        *self.0 as i64
    }
}
#[derive(Clone, Copy)]
struct Plain(i32);
element!(Plain);
impl El for Plain {
    const NAME: &'static str = "copied values";
    fn mk(n: i32) -> Self {
        Plain(n)
    }
    fn get(&self) -> i64 {
        self.0 as i64
    }
    fn refs_c(c: &mut Counter<Self, B>, v: &[Self]) -> bool {
        c.extend(Calls(v.iter()));
        true
    }
    fn refs_d(c: &mut DisjointSet<Self, B>, v: &[Self]) -> bool {
        c.extend(Calls(v.iter()));
        true
    }
}
fn text(o: &mut Out, f: impl FnOnce(&mut Sink) -> std::fmt::Result) {
    let mut s = Sink(vec![]);
    let _ = f(&mut s);
    // the order of entries of a map is no matter of this property
    s.0.sort_unstable();
    o.extend(s.0)
}
struct Sink(Vec<i64>);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0.extend(s.bytes().map(|b| b as i64));
        Ok(())
    }
}

// ---- objects --------------------------------------------------------------------------------------
trait Object: Sized + 'static {
    const NAME: &'static str;
    const READ: &'static [&'static str];
    const WRITE: &'static [&'static str];
    const SPLIT: &'static [&'static str];
    fn start() -> Self;
    fn twin(&self) -> Self;
    fn read(&self, op: usize, o: &mut Out);
    fn write(&mut self, op: usize, o: &mut Out);
    /// Operations for longer histories.
    const CORE: &'static [usize];
    /// Parts of the object, or iterators over it, used by two threads. None: as `pair`.
    fn split(&mut self, op: usize, k: [usize; 2], o: &mut Out) -> Option<()>;
    fn view(&mut self) -> Out;
}

struct Ring<T>(Cb<T>);
impl<T: El> Ring<T> {
    fn put(c: &Cb<T>, o: &mut Out) {
        o.extend([c.len() as i64, c.is_empty() as i64, c.is_full() as i64]);
        o.extend(c.iter().map(|x| x.get()));
    }
}
impl<T: El> Object for Ring<T> {
    const NAME: &'static str = "circular buffer of";
    const READ: &'static [&'static str] = &["len, capacity, flags", "iterate", "index all", "first and last", "slices", "clone", "compare with itself", "order against itself", "compare with a slice", "Debug", "collect from references", "compare with others", "order against others", "for &"];
    const WRITE: &'static [&'static str] = &[
        "push_back 1", "push_front 2", "pop_back", "pop_front", "resize 1", "resize 3", "extend [1, 2]", "extend by reference [3]", "reverse", "linearize", "swap ends", "clear", "drain 1", "append [4, 5]", "write through iterator", "write ends", "owning iteration, rebuild", "clone and continue", "clone_from [1, 2] of 3",
    ];
    const CORE: &'static [usize] = &[1, 3, 6, 13, 14, 16];
    const SPLIT: &'static [&'static str] = &["write halves through iter_mut", "write the two slices", "move a started drain", "move a started owning iteration", "two iterators over the same buffer"];
    fn start() -> Self {
        Ring(Cb::new(2))
    }
    fn twin(&self) -> Self {
        Ring(self.0.clone())
    }
    fn read(&self, op: usize, o: &mut Out) {
        let c = &self.0;
        match op {
            0 => o.extend([c.len() as i64, c.capacity() as i64, c.is_empty() as i64, c.is_full() as i64]),
            1 => o.extend(c.iter().map(|x| x.get())),
            2 => o.extend((0..c.len()).map(|i| c[i].get())),
            3 => o.extend([c.first().map_or(-1, |x| x.get()), c.last().map_or(-1, |x| x.get())]),
            4 => {
                let (a, b) = c.slices();
                o.extend(a.iter().chain(b).map(|x| x.get()))
            }
            5 => Self::put(&c.clone(), o),
            6 => o.push((c == c) as i64),
            7 => o.push((c.partial_cmp(c) == Some(Ordering::Equal)) as i64),
            8 => o.push((*c == [T::mk(1), T::mk(2)][..]) as i64),
            9 => text(o, |s| write!(s, "{:?}", c)),
            10 => Self::put(&c.iter().collect(), o),
            11 => {
                for v in [[1, 2], [1, 1], [2, 1]] {
                    let d: Cb<T> = vec![T::mk(v[0]), T::mk(v[1])].into();
                    o.extend([(*c == d) as i64, (&d != c) as i64, (*c == [T::mk(v[0]), T::mk(v[1])][..]) as i64])
                }
            }
            12 => {
                for v in [[1, 2], [1, 1], [2, 1]] {
                    let d: Cb<T> = vec![T::mk(v[0]), T::mk(v[1])].into();
                    o.extend([c.partial_cmp(&d).map_or(2, |c| c as i64), d.cmp(c) as i64, (*c < d) as i64])
                }
            }
            _ => {
                for x in c {
                    o.push(x.get())
                }
            }
        }
    }
    fn write(&mut self, op: usize, o: &mut Out) {
        let c = &mut self.0;
        match op {
            0 => c.push_back(T::mk(1)),
            1 => c.push_front(T::mk(2)),
            2 => o.push(c.pop_back().map_or(-1, |x| x.get())),
            3 => o.push(c.pop_front().map_or(-1, |x| x.get())),
            4 => c.resize(1),
            5 => c.resize(3),
            6 => c.extend(Calls(vec![T::mk(1), T::mk(2)].into_iter())),
            7 => c.extend(Calls([T::mk(3)].iter())),
            8 => c.reverse(),
            9 => o.extend(c.linearize().iter().map(|x| x.get())),
            10 => {
                if c.len() > 1 {
                    let n = c.len();
                    c.swap(0, n - 1)
                }
            }
            11 => c.clear(),
            12 => {
                let mut d = c.drain();
                o.push(d.next().map_or(-1, |x| x.get()));
            }
            13 => {
                let mut d: Cb<T> = vec![T::mk(4), T::mk(5)].into();
                c.append(&mut d);
                o.push(d.len() as i64)
            }
            14 => {
                for x in c.iter_mut() {
                    *x = T::mk(((x.get() + 1) % 4) as i32)
                }
            }
            15 => {
                if let Some(x) = c.first_mut() {
                    *x = T::mk(3)
                }
                if let Some(x) = c.last_mut() {
                    *x = T::mk(1)
                }
            }
            16 => {
                let d = std::mem::replace(c, Cb::new(0));
                *c = Calls(d.into_iter()).collect()
            }
            17 => *c = c.clone(),
            _ => {
                let mut d = Cb::new(3);
                d.push_back(T::mk(1));
                d.push_back(T::mk(2));
                c.clone_from(&d)
            }
        }
    }
    fn split(&mut self, op: usize, k: [usize; 2], o: &mut Out) -> Option<()> {
        fn all<T: El>(v: Vec<&mut T>) {
            for x in v {
                *x = T::mk(((x.get() + 1) % 4) as i32)
            }
        }
        match op {
            0 => {
                let (mut a, mut b) = (vec![], vec![]);
                for (i, x) in self.0.iter_mut().enumerate() {
                    if i % 2 == 0 { &mut a } else { &mut b }.push(x)
                }
                let r = pair(k, || all(a), || all(b))?;
                o.push((r == (Ok(()), Ok(()))) as i64);
            }
            1 => {
                let (a, b) = self.0.slices_mut();
                let r = pair(k, || all(a.iter_mut().collect()), || all(b.iter_mut().collect()))?;
                o.push((r == (Ok(()), Ok(()))) as i64);
            }
            2 => {
                let mut d = self.0.drain();
                let (a, mut d) = elsewhere(|| (d.next().map_or(-1, |x| x.get()), d));
                o.push(a);
                o.push(elsewhere(|| d.next().map_or(-1, |x| x.get())));
                elsewhere(move || {
                    let d = d;
                    drop(d)
                });
            }
            3 => {
                let mut d = self.twin().0.into_iter();
                let (a, mut d) = elsewhere(|| (d.next().map_or(-1, |x| x.get()), d));
                o.push(a);
                o.push(elsewhere(|| d.next().map_or(-1, |x| x.get())));
                elsewhere(move || {
                    let d = d;
                    drop(d)
                });
            }
            _ => {
                let (mut a, mut b) = (self.0.iter(), self.0.iter());
                o.push(a.next().map_or(-1, |x| x.get()));
                let (a, b) = pair(k, || a.map(|x| x.clone().get()).collect::<Vec<_>>(), || b.map(|x| x.clone().get()).collect::<Vec<_>>())?;
                o.extend(a.unwrap_or(vec![-7]));
                o.extend(b.unwrap_or(vec![-7]));
            }
        }
        Some(())
    }
    fn view(&mut self) -> Out {
        let mut o = vec![self.0.capacity() as i64];
        Self::put(&self.0, &mut o);
        o
    }
}

struct Count<T: El>(Counter<T, B>);
impl<T: El> Count<T> {
    fn of(v: &[i32]) -> Counter<T, B> {
        v.iter().map(|&n| T::mk(n)).collect()
    }
    fn put<S: std::hash::BuildHasher>(c: &Counter<T, S>, o: &mut Out) {
        let mut v: Vec<_> = c.iter().map(|(k, n)| (k.get(), *n as i64)).collect();
        v.sort_unstable();
        o.push(c.len() as i64);
        for (k, n) in v {
            o.extend([k, n])
        }
    }
    fn ranked(v: Vec<(T, usize)>, o: &mut Out) {
        o.extend(v.iter().map(|x| x.1 as i64));
        let mut v: Vec<_> = v.iter().map(|x| (x.0.get(), x.1)).collect();
        v.sort_unstable();
        for (k, n) in v {
            o.extend([k, n as i64])
        }
    }
}
impl<T: El> Object for Count<T> {
    const NAME: &'static str = "counter of";
    const READ: &'static [&'static str] = &["most_common", "iterate", "get all", "len", "clone", "compare with itself", "Debug", "+ &", "+= &", "-= &", "From map by reference", "collect from references", "compare with others", "keys and values"];
    const WRITE: &'static [&'static str] = &[
        "push 0", "push 1", "extend [1, 1, 3]", "extend by reference [2, 2]", "+= [1, 2]", "+= &[1, 2]", "-= [0, 1]", "-= &[0, 1]", "into_most_common of a clone", "clear", "remove 1", "entry of 2", "write through iterator", "owning iteration, rebuild", "drain", "retain odd", "reserve 9, shrink", "from_hashmap", "clone and continue", "clone_from [0, 0, 2]", "From map", "+", "-",
    ];
    const CORE: &'static [usize] = &[0, 4, 7, 9, 12, 18];
    const SPLIT: &'static [&'static str] = &["write halves through iter_mut", "move a started drain", "move a started owning iteration", "two iterators over the same counter"];
    fn start() -> Self {
        Count(Counter::new())
    }
    fn twin(&self) -> Self {
        Count(self.0.clone())
    }
    fn read(&self, op: usize, o: &mut Out) {
        let c = &self.0;
        match op {
            0 => Self::ranked(c.most_common(), o),
            1 => {
                let mut v: Vec<_> = c.into_iter().map(|(k, n)| k.get() * 100 + *n as i64).collect();
                v.sort_unstable();
                o.extend(v)
            }
            2 => o.extend((0..4).map(|i| c.get(&T::mk(i)).map_or(-1, |n| *n as i64))),
            3 => o.extend([c.len() as i64, c.is_empty() as i64]),
            4 => Self::put(&c.clone(), o),
            5 => o.push((c == c) as i64),
            6 => text(o, |s| write!(s, "{:?}", c)),
            7 => Self::put(&(Self::of(&[0, 1]) + c), o),
            8 => {
                let mut d = Self::of(&[0, 1]);
                d += c;
                Self::put(&d, o)
            }
            9 => {
                let mut d = Self::of(&[0, 1, 1, 1]);
                d -= c;
                Self::put(&d, o)
            }
            10 => {
                let d: Counter<T, B> = (&**c).into();
                Self::put(&d, o)
            }
            11 => {
                let d: Counter<T, B> = c.keys().collect();
                Self::put(&d, o)
            }
            12 => {
                for v in [&[0][..], &[0, 1], &[1, 1, 3], &[0, 1, 2]] {
                    let d = Self::of(v);
                    o.extend([(*c == d) as i64, (d != *c) as i64])
                }
            }
            _ => {
                o.push(c.values().sum::<usize>() as i64);
                o.push(c.keys().map(|k| k.get()).sum())
            }
        }
    }
    fn write(&mut self, op: usize, o: &mut Out) {
        let c = &mut self.0;
        match op {
            0 | 1 => c.push(T::mk(op as i32)),
            2 => c.extend(Calls(vec![T::mk(1), T::mk(1), T::mk(3)].into_iter())),
            3 => {
                let _ = T::refs_c(c, &[T::mk(2), T::mk(2)]);
            }
            4 => *c += Self::of(&[1, 2]),
            5 => *c += &Self::of(&[1, 2]),
            6 => *c -= Self::of(&[0, 1]),
            7 => *c -= &Self::of(&[0, 1]),
            8 => Self::ranked(c.clone().into_most_common(), o),
            9 => c.clear(),
            10 => o.push(c.remove(&T::mk(1)).map_or(-1, |n| n as i64)),
            11 => *c.entry(T::mk(2)).or_insert(0) += 1,
            12 => {
                for (_, n) in &mut *c {
                    *n = *n % 3 + 1
                }
            }
            13 => {
                let d = std::mem::replace(c, Counter::new());
                for (k, n) in d {
                    c.insert(k, n);
                }
            }
            14 => {
                let n = c.drain().map(|x| x.1).sum::<usize>();
                o.push(n as i64)
            }
            15 => c.retain(|k, _| k.get() % 2 == 1),
            16 => {
                c.reserve(9);
                c.shrink_to_fit()
            }
            17 => {
                let d = std::mem::replace(c, Counter::new());
                *c = Counter::from_hashmap(d.into_iter().collect())
            }
            18 => *c = c.clone(),
            19 => c.clone_from(&Self::of(&[0, 0, 2])),
            20 => {
                let d = std::mem::replace(c, Counter::new());
                *c = d.into_iter().collect::<HashMap<T, usize, B>>().into()
            }
            21 => {
                let d = std::mem::replace(c, Counter::new());
                *c = d + Self::of(&[2])
            }
            _ => {
                let d = std::mem::replace(c, Counter::new());
                *c = d - Self::of(&[2])
            }
        }
    }
    fn split(&mut self, op: usize, k: [usize; 2], o: &mut Out) -> Option<()> {
        fn all<T: El>(v: Vec<(&T, &mut usize)>) {
            for x in v {
                let _ = x.0.clone();
                *x.1 = *x.1 % 3 + 1
            }
        }
        match op {
            0 => {
                let (mut a, mut b) = (vec![], vec![]);
                for x in &mut self.0 {
                    if x.0.get() % 2 == 0 { &mut a } else { &mut b }.push(x)
                }
                let r = pair(k, || all(a), || all(b))?;
                o.push((r == (Ok(()), Ok(()))) as i64);
            }
            1 => {
                let mut d = self.0.drain();
                let (a, mut d) = elsewhere(|| (d.next().map_or(-1, |x| x.0.get()), d));
                let b = elsewhere(|| d.next().map_or(-1, |x| x.0.get()));
                o.extend([a.max(b), a.min(b)]);
                elsewhere(move || {
                    let d = d;
                    drop(d)
                });
            }
            2 => {
                let mut d = self.twin().0.into_iter();
                let (a, mut d) = elsewhere(|| (d.next().map_or(-1, |x| x.0.get()), d));
                let b = elsewhere(|| d.next().map_or(-1, |x| x.0.get()));
                o.extend([a.max(b), a.min(b)]);
                elsewhere(move || {
                    let d = d;
                    drop(d)
                });
            }
            _ => {
                let (a, b) = ((&self.0).into_iter(), (&self.0).into_iter());
                let (a, b) = pair(k, || a.map(|x| x.0.clone().get() * 100 + *x.1 as i64).sum(), || b.map(|x| x.0.clone().get() * 100 + *x.1 as i64).sum())?;
                o.extend([a.unwrap_or(-7), b.unwrap_or(-7)]);
            }
        }
        Some(())
    }
    fn view(&mut self) -> Out {
        let mut o = vec![];
        Self::put(&self.0, &mut o);
        o
    }
}

struct Sets<T: El>(DisjointSet<T, B>);
impl<T: El> Sets<T> {
    fn put(c: &mut DisjointSet<T, B>, o: &mut Out) {
        let mut v: Vec<Vec<i64>> = c
            .into_iter()
            .map(|s| {
                let mut s: Vec<i64> = s.into_iter().map(|x| x.get()).collect();
                s.sort_unstable();
                s
            })
            .collect();
        v.sort();
        o.push(c.len() as i64);
        for s in v {
            o.push(-1);
            o.extend(s)
        }
    }
}
impl<T: El> Object for Sets<T> {
    const NAME: &'static str = "disjoint set of";
    const READ: &'static [&'static str] = &["contains", "len, is_empty", "clone, iterate", "clone, union", "Debug"];
    const WRITE: &'static [&'static str] = &[
        "make_set 0", "make_set 3", "union 0 1", "union 1 2", "union 2 3", "union 3 3", "in_union", "iterate", "extend [0, 3]", "extend by reference [2, 1]", "clear", "reserve 9", "clone and continue", "rebuild from items", "clone_from",
    ];
    const CORE: &'static [usize] = &[2, 4, 6, 8, 10, 12];
    const SPLIT: &'static [&'static str] = &["move a started iteration", "sets read by two threads"];
    fn start() -> Self {
        Sets(DisjointSet::new())
    }
    fn twin(&self) -> Self {
        Sets(self.0.clone())
    }
    fn read(&self, op: usize, o: &mut Out) {
        let c = &self.0;
        match op {
            0 => o.extend((0..4).map(|i| c.contains(&T::mk(i)) as i64)),
            1 => o.extend([c.len() as i64, c.is_empty() as i64]),
            2 => Self::put(&mut c.clone(), o),
            3 => {
                let mut d = c.clone();
                d.union(T::mk(0), T::mk(2));
                Self::put(&mut d, o)
            }
            _ => {
                // no promise about the text
                let _ = write!(Sink(vec![]), "{:?}", c);
            }
        }
    }
    fn write(&mut self, op: usize, o: &mut Out) {
        let c = &mut self.0;
        match op {
            0 => c.make_set(T::mk(0)),
            1 => c.make_set(T::mk(3)),
            2..=4 => c.union(T::mk(op as i32 - 2), T::mk(op as i32 - 1)),
            5 => c.union(T::mk(3), T::mk(3)),
            6 => {
                for (a, b) in [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3), (1, 1)] {
                    if c.contains(&T::mk(a)) && c.contains(&T::mk(b)) {
                        o.push(c.in_union(&T::mk(a), &T::mk(b)) as i64)
                    }
                }
            }
            7 => Self::put(c, o),
            8 => c.extend(Calls(vec![T::mk(0), T::mk(3)].into_iter())),
            9 => {
                let _ = T::refs_d(c, &[T::mk(2), T::mk(1)]);
            }
            10 => c.clear(),
            11 => c.reserve(9),
            12 => *c = c.clone(),
            13 => *c = (0..4).filter(|&i| c.contains(&T::mk(i))).map(T::mk).collect(),
            _ => {
                let mut d = DisjointSet::with_capacity(3);
                d.union(T::mk(1), T::mk(3));
                c.clone_from(&d)
            }
        }
    }
    fn split(&mut self, op: usize, k: [usize; 2], o: &mut Out) -> Option<()> {
        match op {
            0 => {
                let mut it = (&mut self.0).into_iter();
                let (a, mut it) = elsewhere(|| (it.next().map_or(-1, |s| s.into_iter().map(|x| x.get()).sum()), it));
                let b: i64 = elsewhere(|| it.next().map_or(-1, |s| s.into_iter().map(|x| x.get()).sum()));
                // which set comes first is not promised
                o.push((a >= b) as i64 * 0);
                elsewhere(move || {
                    let it = it;
                    drop(it)
                });
            }
            _ => {
                let v: Vec<Vec<&T>> = (&mut self.0).into_iter().map(|s| s.into_iter().collect()).collect();
                let sum = |v: &[Vec<&T>]| v.iter().map(|s| s.iter().map(|x| (**x).clone().get()).sum::<i64>()).sum::<i64>();
                let (a, b) = pair(k, || sum(&v), || sum(&v))?;
                o.extend([a.unwrap_or(-7), b.unwrap_or(-7)]);
            }
        }
        Some(())
    }
    fn view(&mut self) -> Out {
        let mut o = vec![];
        let c = &mut self.0;
        for (a, b) in [(0, 1), (0, 3), (1, 2), (2, 3)] {
            let (a, b) = (T::mk(a), T::mk(b));
            if c.contains(&a) && c.contains(&b) {
                o.push(c.in_union(&a, &b) as i64)
            }
        }
        // over a copy: what this may rearrange stays as the operations left it
        Self::put(&mut self.0.clone(), &mut o);
        o
    }
}

struct Range<T: El>(Interval<T>);
impl<T: El> Range<T> {
    fn put(i: &Interval<T>, o: &mut Out) {
        match i.bounds() {
            None => o.push(-100),
            Some((l, u)) => o.extend([l.val().get(), l.is_closed() as i64, u.val().get(), u.is_closed() as i64]),
        }
    }
    fn other() -> Interval<T> {
        Interval::lower_closed(T::mk(1), T::mk(3))
    }
}
impl<T: El> Object for Range<T>
where
    T: Add<Output = T> + AddAssign + Sub<Output = T> + SubAssign + Mul<Output = T> + MulAssign + Div<Output = T> + DivAssign + Neg<Output = T>,
{
    const NAME: &'static str = "interval of";
    const READ: &'static [&'static str] = &["bounds", "flags", "contains values", "contains_interval", "intersects, can_be_merged", "order against values", "order against an interval", "compare with itself", "hash", "Display", "Debug", "clone", "into_merged of a clone", "into_intersection of a clone", "into_span of a clone", "arithmetic on a clone"];
    const WRITE: &'static [&'static str] = &["= empty", "= [0, 2]", "= (1, 3]", "= [2]", "= (3, 5)", "merge [1, 3)", "intersection [1, 3)", "span [1, 3)", "+= 1", "-= 1", "*= -1", "/= -1", "negate", "through bounds", "through tuple"];
    const CORE: &'static [usize] = &[0, 1, 3, 5, 7, 8, 12];
    const SPLIT: &'static [&'static str] = &["bounds read by two threads"];
    fn start() -> Self {
        Range(Interval::closed(T::mk(0), T::mk(2)))
    }
    fn twin(&self) -> Self {
        Range(self.0.clone())
    }
    fn read(&self, op: usize, o: &mut Out) {
        let i = &self.0;
        match op {
            0 => {
                Self::put(i, o);
                o.extend([i.lower().map_or(-100, |b| b.val().get()), i.upper().map_or(-100, |b| b.val().get())])
            }
            1 => o.extend([i.is_empty() as i64, i.is_single() as i64, i.is_lower_closed().map_or(2, |b| b as i64), i.is_upper_closed().map_or(2, |b| b as i64)]),
            2 => o.extend((-1..4).map(|n| i.contains_val(&T::mk(n)) as i64)),
            3 => o.extend([i.contains_interval(&Self::other()) as i64, Self::other().contains_interval(i) as i64]),
            4 => o.extend([i.intersects(&Self::other()) as i64, i.can_be_merged(&Self::other()) as i64, Self::other().intersects(i) as i64]),
            5 => o.extend((-1..4).map(|n| i.partial_cmp(&T::mk(n)).map_or(2, |c| c as i64))),
            6 => o.extend([i.partial_cmp(&Self::other()).map_or(2, |c| c as i64), Self::other().partial_cmp(i).map_or(2, |c| c as i64)]),
            7 => o.push((i == i) as i64),
            8 => {
                let mut h = H::default();
                i.hash(&mut h);
                o.push(h.finish() as i64)
            }
            9 => text(o, |s| write!(s, "{}", i)),
            10 => text(o, |s| write!(s, "{:?}", i)),
            11 => Self::put(&i.clone(), o),
            12 => match i.clone().into_merged(Self::other()) {
                Ok(x) => Self::put(&x, o),
                Err((x, y)) => {
                    Self::put(&x, o);
                    Self::put(&y, o)
                }
            },
            13 => Self::put(&i.clone().into_intersection(Self::other()), o),
            14 => Self::put(&i.clone().into_span(Self::other()), o),
            _ => Self::put(&-((i.clone() + T::mk(1)) * T::mk(-1) - T::mk(2)), o),
        }
    }
    fn write(&mut self, op: usize, o: &mut Out) {
        let i = &mut self.0;
        match op {
            0 => *i = Interval::empty(),
            1 => *i = Interval::closed(T::mk(0), T::mk(2)),
            2 => *i = Interval::upper_closed(T::mk(1), T::mk(3)),
            3 => *i = Interval::single(T::mk(2)),
            4 => *i = Interval::open(T::mk(3), T::mk(5)),
            5 => match i.merge(Self::other()) {
                Ok(()) => o.push(1),
                Err(e) => Self::put(&e, o),
            },
            6 => i.intersection(Self::other()),
            7 => i.span(Self::other()),
            8 => *i += T::mk(1),
            9 => *i -= T::mk(1),
            10 => *i *= T::mk(-1),
            11 => *i /= T::mk(-1),
            12 => {
                let x = std::mem::replace(i, Interval::empty());
                *i = -x
            }
            13 => {
                if let Some((l, u)) = std::mem::replace(i, Interval::empty()).into_bounds() {
                    *i = Interval::from_bounds(l, u)
                }
            }
            _ => {
                if let Some((l, lc, u, uc)) = std::mem::replace(i, Interval::empty()).into_tuple() {
                    *i = Interval::new(l, lc, u, uc)
                }
            }
        }
        // values stay few
        if let Some((l, u)) = i.bounds() {
            if l.val().get() < -4 || u.val().get() > 6 {
                *i = Interval::empty()
            }
        }
    }
    fn split(&mut self, op: usize, k: [usize; 2], o: &mut Out) -> Option<()> {
        if let Some((l, u)) = self.0.bounds() {
            let ask = || l.val().clone().get() + u.val().clone().get() + 10 * (*l < *u) as i64 + 20 * l.is_separated_from(u) as i64;
            let (a, b) = pair(k, ask, ask)?;
            o.extend([a.unwrap_or(-7), b.unwrap_or(-7)]);
        }
        Some(())
    }
    fn view(&mut self) -> Out {
        let mut o = vec![];
        Self::put(&self.0, &mut o);
        o
    }
}

// ---- histories --------------------------------------------------------------------------------------
/// What two threads do with the object(s) a history has led to.
#[derive(Clone, Copy, Debug)]
enum Leaf {
    /// Two reading operations on the same object.
    Shared(usize, usize),
    /// Every reading operation, by both.
    AllShared,
    /// Two reading operations on different objects.
    Other(usize, usize),
    /// Operations on two objects, the second made by the same history or (true) cloned from the first.
    Apart(usize, usize, bool),
    AllApart(bool),
    Split(usize),
}
const fn leaves<O: Object>() -> usize {
    let (r, w) = (O::READ.len(), O::WRITE.len());
    2 * r * r + 1 + 2 * w * w + 2 + O::SPLIT.len()
}
fn leaf<O: Object>(mut i: usize) -> Leaf {
    let (r, w) = (O::READ.len(), O::WRITE.len());
    if i < O::SPLIT.len() {
        return Leaf::Split(i);
    }
    i -= O::SPLIT.len();
    if i < 3 {
        return [Leaf::AllShared, Leaf::AllApart(false), Leaf::AllApart(true)][i];
    }
    i -= 3;
    if i < r * r {
        return Leaf::Shared(i / r, i % r);
    }
    i -= r * r;
    if i < r * r {
        return Leaf::Other(i / r, i % r);
    }
    i -= r * r;
    Leaf::Apart(i / w % w, i % w, i >= w * w)
}
fn shown<O: Object>(l: Leaf, k: [usize; 2]) -> String {
    let at = |k: usize| if k == 0 { String::new() } else { format!(" (gives way at call {} of user code)", k) };
    let t = match l {
        Leaf::Shared(a, b) => return format!("two threads, same object: {}{} | {}{}", O::READ[a], at(k[0]), O::READ[b], at(k[1])),
        Leaf::Other(a, b) => return format!("two threads, the object and one that was only given '{}': {}{} | {}{}", O::WRITE[O::CORE[0]], O::READ[a], at(k[0]), O::READ[b], at(k[1])),
        Leaf::AllShared => "two threads, same object: all reading operations".to_string(),
        Leaf::Apart(a, b, c) => return format!("two threads, the object and {}: {}{} | {}{}", if c { "its clone" } else { "another like it" }, O::WRITE[a], at(k[0]), O::WRITE[b], at(k[1])),
        Leaf::AllApart(c) => format!("two threads, the object and {}: all changing operations", if c { "its clone" } else { "another like it" }),
        Leaf::Split(a) => O::SPLIT[a].to_string(),
    };
    format!("{}{}{}", t, at(k[0]), at(k[1]))
}
fn reached<O: Object>(word: &[usize]) -> O {
    let mut x = O::start();
    for &w in word {
        x.write(w, &mut vec![])
    }
    x
}
fn reads<O: Object>(x: &O) -> Out {
    let mut o = vec![];
    for op in 0..O::READ.len() {
        // takes the interpreter as long as all others
        if cfg!(miri) && O::READ[op] == "Debug" {
            continue;
        }
        x.read(op, &mut o);
        o.push(-1000 - op as i64)
    }
    o
}
fn writes<O: Object>(x: &mut O) -> Out {
    let mut o = vec![];
    for op in 0..O::WRITE.len() {
        x.write(op, &mut o);
        o.push(-1000 - op as i64);
        #[cfg(not(miri))]
        o.extend(x.view())
    }
    o
}
fn read<O: Object>(x: &O, op: usize) -> Out {
    let mut o = vec![];
    x.read(op, &mut o);
    o
}
fn write<O: Object>(x: &mut O, op: usize) -> Out {
    let mut o = vec![];
    x.write(op, &mut o);
    o.push(-1000);
    #[cfg(not(miri))]
    o.extend(x.view());
    o
}
/// Whether the two threads got and left (under Miri: nothing but races matters) what they would have got and left one after the other; None: no such schedule.
fn judge<O: Object>(word: &[usize], l: Leaf, k: [usize; 2]) -> Option<Res> {
    type R = Result<Out, ()>;
    let same = |who: &str, got: R, want: R| -> Res {
        if got == want {
            Ok(())
        } else {
            Err(format!("{}: {} instead of {} (one after the other)", who, got.map_or("a panic".to_string(), |x| format!("{:?}", x)), want.map_or("a panic".to_string(), |x| format!("{:?}", x))))
        }
    };
    let alone = |f: &mut dyn FnMut() -> Out| -> R { catch_unwind(AssertUnwindSafe(f)).map_err(|_| ()) };
    obs();
    match l {
        Leaf::Shared(..) | Leaf::Other(..) | Leaf::AllShared => {
            let mut x: O = reached(word);
            let other = if let Leaf::Other(..) = l { Some(reached::<O>(&O::CORE[..1])) } else { None };
            let (f, g): (fn(&O, usize) -> Out, _) = match l {
                Leaf::Shared(a, b) | Leaf::Other(a, b) => (read, [a, b]),
                _ => (|x, _| reads(x), [0, 0]),
            };
            let (s, t) = (Shared(&x), Shared(other.as_ref().unwrap_or(&x)));
            let got = pair(k, move || f({ s }.get(), g[0]), move || f({ t }.get(), g[1]))?;
            if cfg!(miri) {
                return Some(Ok(()));
            }
            let after = x.view();
            drop(x);
            let mut y: O = reached(word);
            let want = (alone(&mut || f(&y, g[0])), alone(&mut || f(other.as_ref().unwrap_or(&y), g[1])));
            let then = y.view();
            Some(same("first thread", got.0, want.0).and(same("second thread", got.1, want.1)).and(same("the object afterwards", Ok(after), Ok(then))))
        }
        Leaf::Apart(..) | Leaf::AllApart(_) => {
            let (clone, [a, b]) = match l {
                Leaf::Apart(a, b, c) => (c, [a, b]),
                Leaf::AllApart(c) => (c, [0, 0]),
                _ => unreachable!(),
            };
            let f: fn(&mut O, usize) -> Out = if let Leaf::Apart(..) = l { write } else { |x, _| writes(x) };
            let two = || {
                let x: O = reached(word);
                let y = if clone { x.twin() } else { reached(word) };
                (x, y)
            };
            let (mut x, mut y) = two();
            let (s, t) = (&mut x, &mut y);
            let got = pair(k, move || f(s, a), move || f(t, b))?;
            let after = if cfg!(miri) { (vec![], vec![]) } else { (x.view(), y.view()) };
            // dropped by other threads than they were used by
            elsewhere(move || {
                let y = y;
                drop(y)
            });
            drop(x);
            if cfg!(miri) {
                return Some(Ok(()));
            }
            let (mut x, mut y) = two();
            let want = (alone(&mut || f(&mut x, a)), alone(&mut || f(&mut y, b)));
            let then = (x.view(), y.view());
            Some(same("first thread", got.0, want.0).and(same("second thread", got.1, want.1)).and(same("the first object afterwards", Ok(after.0), Ok(then.0))).and(same("the second object afterwards", Ok(after.1), Ok(then.1))))
        }
        Leaf::Split(a) => {
            let mut x: O = reached(word);
            let mut o = vec![];
            x.split(a, k, &mut o)?;
            if cfg!(miri) {
                return Some(Ok(()));
            }
            let mut y: O = reached(word);
            let mut p = vec![];
            // one after the other
            y.split(a, [0, 0], &mut p);
            Some(same("the threads", Ok(o), Ok(p)).and(same("the object afterwards", Ok(x.view()), Ok(y.view()))))
        }
    }
}
/// Every operation of the history by another thread than the one before (`by`: by which); against one thread for all.
fn moved<O: Object>(word: &[usize], by: &[usize]) -> Res {
    #[cfg(not(miri))]
    use std::sync::mpsc::channel;
    obs();
    #[cfg(not(miri))]
    let (r1, want) = elsewhere(|| {
        let mut x = O::start();
        let rs: Vec<Out> = word.iter().map(|&w| write(&mut x, w)).collect();
        (rs, x.view())
    });
    let mut x = Force(O::start());
    let mut r2 = vec![];
    #[cfg(miri)]
    for &w in word {
        let y = std::mem::replace(&mut x, Force(O::start()));
        let (y, r) = elsewhere(move || {
            let mut y = { y }.get();
            let r = catch_unwind(AssertUnwindSafe(|| write(&mut y, w))).ok();
            (y, r)
        });
        x = Force(y);
        r2.push(r);
    }
    #[cfg(not(miri))]
    std::thread::scope(|s| {
        let mut to = vec![];
        let (back, results) = channel::<Force<(O, Option<Out>)>>();
        for _ in 0..2 {
            let (tx, rx) = channel::<(Force<O>, usize)>();
            let back = back.clone();
            s.spawn(move || {
                for (x, w) in rx {
                    let mut x = x.get();
                    let r = catch_unwind(AssertUnwindSafe(|| write(&mut x, w))).ok();
                    let _ = back.send(Force((x, r)));
                }
            });
            to.push(tx);
        }
        for (i, &w) in word.iter().enumerate() {
            let y = std::mem::replace(&mut x, Force(O::start()));
            to[by[i]].send((y, w)).unwrap();
            let (y, r) = results.recv().unwrap().get();
            x = Force(y);
            r2.push(r);
        }
    });
    #[cfg(miri)]
    return Ok(());
    #[cfg(not(miri))]
    {
    for (i, (a, b)) in r1.iter().zip(&r2).enumerate() {
        if Some(a) != b.as_ref() {
            return Err(format!("operation {}: {:?} instead of {:?} (all by the same thread)", i + 1, b, a));
        }
    }
    let got = x.get().view();
    if got != want {
        return Err(format!("{:?} is left instead of {:?} (all by the same thread)", got, want));
    }
    Ok(())
    }
}

// ---- histories in which one operation interrupts another (C39) --------------------------------------
#[derive(Clone, Copy)]
enum Nest {
    /// Parts of the object.
    Split(usize),
    /// Two reading operations on the same object.
    Same(usize, usize),
    /// Any operation on the object, any on another like it or (true) its clone.
    Other(usize, usize, bool),
    /// Any operation on the object, all operations on objects of every kind.
    All(usize),
    /// The operation is ended by a panic of user code, then all operations on another object like it or (true) its clone.
    Ended(usize, bool),
}
fn any<O: Object>() -> usize {
    O::READ.len() + O::WRITE.len()
}
fn nests<O: Object>() -> usize {
    let (r, n) = (O::READ.len(), any::<O>());
    O::SPLIT.len() + r * r + 2 * n * n + n + 2 * n
}
fn nested<O: Object>(mut i: usize) -> Nest {
    let (r, n) = (O::READ.len(), any::<O>());
    if i < O::SPLIT.len() {
        return Nest::Split(i);
    }
    i -= O::SPLIT.len();
    if i < n {
        return Nest::All(i);
    }
    i -= n;
    if i < 2 * n {
        return Nest::Ended(i % n, i >= n);
    }
    i -= 2 * n;
    if i < r * r {
        return Nest::Same(i / r, i % r);
    }
    i -= r * r;
    Nest::Other(i / n % n, i % n, i >= n * n)
}
fn named<O: Object>(op: usize) -> &'static str {
    let r = O::READ.len();
    if op < r { O::READ[op] } else { O::WRITE[op - r] }
}
fn nest_shown<O: Object>(l: Nest, k: usize) -> String {
    let who = |c: bool| if c { "its clone" } else { "another like it" };
    match l {
        Nest::Split(a) => format!("{} (the first interrupted by the second at call {} of user code)", O::SPLIT[a], k),
        Nest::Same(a, b) => format!("{}; at call {} of user code {} of the same object", O::READ[a], k, O::READ[b]),
        Nest::Other(a, b, c) => format!("{}; at call {} of user code on {}: {}", named::<O>(a), k, who(c), named::<O>(b)),
        Nest::All(a) => format!("{}; at call {} of user code all operations on objects of every kind", named::<O>(a), k),
        Nest::Ended(a, c) => format!("{}, panic at call {} of user code; all operations on {}", named::<O>(a), k, who(c)),
    }
}
fn act<O: Object>(x: &mut O, op: usize) -> Out {
    let r = O::READ.len();
    if op < r { read(x, op) } else { write(x, op - r) }
}
/// All operations on an object of every kind.
fn everything() -> Out {
    fn of<O: Object>(o: &mut Out) {
        let mut x: O = reached(&O::CORE[..2]);
        o.extend(reads(&x));
        o.extend(writes(&mut x))
    }
    let mut o = vec![];
    of::<Ring<Owned>>(&mut o);
    of::<Ring<Plain>>(&mut o);
    of::<Count<Owned>>(&mut o);
    of::<Count<Plain>>(&mut o);
    of::<Sets<Owned>>(&mut o);
    of::<Sets<Plain>>(&mut o);
    of::<Range<Owned>>(&mut o);
    of::<Range<Plain>>(&mut o);
    o
}
/// Whether all is as if the operations had been performed one after the other; None: no such call of user code.
fn judge_nested<O: Object>(word: &[usize], l: Nest, k: usize) -> Option<Res> {
    obs();
    type R = Result<Out, ()>;
    let unlike = |who: &str, got: &R, want: &R| -> Res {
        let s = |r: &R| r.as_ref().map_or("a panic".to_string(), |x| format!("{:?}", x));
        if got == want { Ok(()) } else { Err(format!("{}: {} instead of {} (one after the other)", who, s(got), s(want))) }
    };
    let safe = |f: &mut dyn FnMut() -> Out| -> R { catch_unwind(AssertUnwindSafe(f)).map_err(|_| ()) };
    if let Nest::Ended(op, clone) = l {
        let reading = op < O::READ.len();
        let rest = |x: &O, y: &mut O| {
            let a = safe(&mut || if reading { reads(x) } else { vec![] });
            [a, safe(&mut || writes(y)), safe(&mut || y.view())]
        };
        let other = |x: &O| if clone { x.twin() } else { reached(word) };
        let want = || {
            let x: O = reached(word);
            let mut y = other(&x);
            rest(&x, &mut y)
        };
        let got = || {
            let mut x: O = reached(word);
            let mut y = other(&x);
            let r = inside(k, None, || act(&mut x, op)).map(|_| rest(&x, &mut y));
            let _ = catch_unwind(AssertUnwindSafe(|| drop(x)));
            r
        };
        if cfg!(miri) {
            return got().map(|_| Ok(()));
        }
        // what a thread keeps from a panic must not meet the next history
        let (want, got) = (elsewhere(want), elsewhere(got)?);
        let mut r = Ok(());
        for (i, who) in ["the object itself, which was only read", "operations on the other object", "the other object afterwards"].iter().enumerate() {
            r = r.and(unlike(who, &got[i], &want[i]))
        }
        return Some(r);
    }
    let go = |k: usize| -> Option<[R; 4]> {
        let mut x: O = reached(word);
        Some(match l {
            Nest::Split(a) => {
                let mut o = vec![];
                x.split(a, [k, 0], &mut o)?;
                [Ok(o), Ok(vec![]), safe(&mut || x.view()), Ok(vec![])]
            }
            Nest::Same(a, b) => {
                let r = nest(k, || read(&x, a), || read(&x, b))?;
                [r.0, r.1, safe(&mut || x.view()), Ok(vec![])]
            }
            Nest::Other(a, b, clone) => {
                let mut y = if clone { x.twin() } else { reached(word) };
                let r = nest(k, || act(&mut x, a), || act(&mut y, b))?;
                [r.0, r.1, safe(&mut || x.view()), safe(&mut || y.view())]
            }
            Nest::All(a) => {
                let r = nest(k, || act(&mut x, a), || everything())?;
                [r.0, r.1, safe(&mut || x.view()), Ok(vec![])]
            }
            Nest::Ended(..) => unreachable!(),
        })
    };
    if cfg!(miri) {
        return go(k).map(|_| Ok(()));
    }
    let want = go(0)?;
    let got = go(k)?;
    let mut r = Ok(());
    for (i, who) in ["the outer operation", "the inner operation", "the first object afterwards", "the second object afterwards"].iter().enumerate() {
        r = r.and(unlike(who, &got[i], &want[i]))
    }
    Some(r)
}
struct Nesting<O> {
    ks: usize,
    name: String,
    element: PhantomData<fn(O)>,
}
impl<O: Object> Scn for Nesting<O> {
    type St = St<O>;
    fn label(&self) -> String {
        self.name.clone()
    }
    fn nops(&self) -> usize {
        O::WRITE.len() + nests::<O>() * self.ks
    }
    fn op_str(&self, op: u16) -> String {
        let op = op as usize;
        match op.checked_sub(O::WRITE.len()) {
            None => O::WRITE[op].into(),
            Some(i) => nest_shown::<O>(nested::<O>(i / self.ks), i % self.ks + 1),
        }
    }
    fn init(&self) -> St<O> {
        St { word: vec![], x: Some(O::start()) }
    }
    fn step(&self, st: &mut St<O>, op: u16) -> Step {
        let op = op as usize;
        let x = match &mut st.x {
            None => return Ok(Flow::Disabled),
            Some(x) => x,
        };
        match op.checked_sub(O::WRITE.len()) {
            None => {
                x.write(op, &mut vec![]);
                st.word.push(op);
            }
            Some(i) => {
                // these need long, and hardly depend on the state
                match nested::<O>(i / self.ks) {
                    Nest::All(_) if st.word.len() > 1 => return Ok(Flow::Disabled),
                    Nest::Ended(..) if st.word.len() > 2 => return Ok(Flow::Disabled),
                    _ => {}
                }
                st.x = None;
                match judge_nested::<O>(&st.word, nested::<O>(i / self.ks), i % self.ks + 1) {
                    None => return Ok(Flow::Disabled),
                    Some(r) => r?,
                }
            }
        }
        Ok(Flow::Go)
    }
    fn key(&self, st: &St<O>) -> Vec<u64> {
        match &st.x {
            None => vec![],
            Some(x) => x.twin().view().iter().chain(&[0]).map(|&n| n as u64).collect(),
        }
    }
    fn check(&self, _: &mut St<O>) -> Res {
        Ok(())
    }
}
fn nested_jobs(_: &str, quick: bool) -> Vec<Box<dyn Job>> {
    let t = (!quick) as usize;
    let mut j: Vec<Box<dyn Job>> = vec![];
    macro_rules! add {
        ($($o:ident $t:ident $s:expr;)*) => {$(
            j.push(explore(Nesting::<$o<$t>> { ks: [4, 10][t], name: format!("{} {}, operations in operations", <$o<$t>>::NAME, $t::NAME), element: PhantomData }, Mode::Bfs { max_states: $s[t] }));
        )*};
    }
    add! {
        Ring Owned [60, 300]; Count Owned [40, 200]; Sets Owned [60, 400]; Range Owned [80, 400];
        Ring Plain [40, 200]; Count Plain [30, 150]; Sets Plain [40, 200]; Range Plain [40, 200];
    }
    j
}
fn nested_kind<O: Object>(name: fn() -> String, states: [usize; 2]) -> Kind {
    Kind {
        name,
        write: O::WRITE,
        view: |w| reached::<O>(w).view(),
        leaves: nests::<O>(),
        take: |tier, state, l, k| match nested::<O>(l) {
            Nest::Split(_) => true,
            Nest::Same(a, b) => O::READ[a] != "Debug" && O::READ[b] != "Debug" && k < [if state < 2 { 2 } else { 1 }, 4][tier],
            Nest::Other(a, b, c) => k == 0 && (a == b || tier == 1 && state < 4 && !c),
            Nest::All(_) => tier == 1 && k == 1 && state == 3,
            Nest::Ended(a, c) => k < [2, 4][tier] && state < [1, 10][tier] && (tier == 1 || !c),
        },
        run: |w, l, k| judge_nested::<O>(w, nested::<O>(l), k + 1),
        show: |l, k| nest_shown::<O>(nested::<O>(l), k + 1),
        states,
    }
}
fn nested_kinds() -> Vec<Kind> {
    macro_rules! all {
        ($($o:ident $t:ident $s:expr;)*) => { vec![$(nested_kind::<$o<$t>>(|| format!("{} {}", <$o<$t>>::NAME, $t::NAME), $s)),*] };
    }
    all! {
        Ring Owned [12, 40]; Count Owned [5, 30]; Sets Owned [12, 40]; Range Owned [4, 30];
        Ring Plain [3, 10]; Count Plain [2, 10]; Sets Plain [2, 10]; Range Plain [1, 10];
    }
}
pub fn main_nested() {
    NESTED.store(true, Relaxed);
    run(nested_kinds, nested_jobs)
}

// ---- exploration ------------------------------------------------------------------------------------
struct Threads<O> {
    ks: &'static [[usize; 2]],
    name: String,
    element: PhantomData<fn(O)>,
}
struct St<O> {
    word: Vec<usize>,
    x: Option<O>,
}
impl<O: Object> Scn for Threads<O> {
    type St = St<O>;
    fn label(&self) -> String {
        self.name.clone()
    }
    fn nops(&self) -> usize {
        O::WRITE.len() + leaves::<O>() * self.ks.len()
    }
    fn op_str(&self, op: u16) -> String {
        let op = op as usize;
        match op.checked_sub(O::WRITE.len()) {
            None => O::WRITE[op].into(),
            Some(i) => shown::<O>(leaf::<O>(i / self.ks.len()), self.ks[i % self.ks.len()]),
        }
    }
    fn init(&self) -> St<O> {
        St { word: vec![], x: Some(O::start()) }
    }
    fn step(&self, st: &mut St<O>, op: u16) -> Step {
        let op = op as usize;
        let x = match &mut st.x {
            None => return Ok(Flow::Disabled),
            Some(x) => x,
        };
        match op.checked_sub(O::WRITE.len()) {
            None => {
                x.write(op, &mut vec![]);
                st.word.push(op);
            }
            Some(i) => {
                st.x = None;
                match judge::<O>(&st.word, leaf::<O>(i / self.ks.len()), self.ks[i % self.ks.len()]) {
                    None => return Ok(Flow::Disabled),
                    Some(r) => r?,
                }
            }
        }
        Ok(Flow::Go)
    }
    fn key(&self, st: &St<O>) -> Vec<u64> {
        match &st.x {
            None => vec![],
            Some(x) => x.twin().view().iter().chain(&[0]).map(|&n| n as u64).collect(),
        }
    }
    fn check(&self, _: &mut St<O>) -> Res {
        Ok(())
    }
}
/// Histories whose operations are spread over two threads.
struct Moved<O> {
    name: String,
    ops: Vec<usize>,
    element: PhantomData<fn(O)>,
}
impl<O: Object> Scn for Moved<O> {
    type St = Vec<u16>;
    fn label(&self) -> String {
        self.name.clone()
    }
    fn nops(&self) -> usize {
        2 * self.ops.len()
    }
    fn op_str(&self, op: u16) -> String {
        format!("{} (thread {})", O::WRITE[self.ops[op as usize / 2]], op % 2)
    }
    fn init(&self) -> Vec<u16> {
        vec![]
    }
    fn step(&self, st: &mut Vec<u16>, op: u16) -> Step {
        // which of the threads begins makes no difference
        if st.is_empty() && op % 2 == 1 {
            return Ok(Flow::Disabled);
        }
        st.push(op);
        Ok(Flow::Go)
    }
    fn key(&self, st: &Vec<u16>) -> Vec<u64> {
        st.iter().map(|&x| x as u64).collect()
    }
    fn check(&self, st: &mut Vec<u16>) -> Res {
        let w: Vec<usize> = st.iter().map(|&x| self.ops[x as usize / 2]).collect();
        let by: Vec<usize> = st.iter().map(|&x| x as usize % 2).collect();
        moved::<O>(&w, &by)
    }
}

/// Which of Send and Sync a type has.
struct Marks<T>(PhantomData<T>);
trait HasSend {
    fn send(&self) -> bool;
}
trait HasSync {
    fn sync(&self) -> bool;
}
impl<T: Send> HasSend for &Marks<T> {
    fn send(&self) -> bool {
        true
    }
}
impl<T: Sync> HasSync for &Marks<T> {
    fn sync(&self) -> bool {
        true
    }
}
impl<T> HasSend for Marks<T> {
    fn send(&self) -> bool {
        false
    }
}
impl<T> HasSync for Marks<T> {
    fn sync(&self) -> bool {
        false
    }
}
/// What an object may do across threads is what its elements (and the builder of its hashers) may do.
fn marks() -> Box<dyn Job> {
    use advanced_collections::circular_buffer::{Drain, IntoIter, Iter, IterMut};
    use std::collections::hash_map::RandomState;
    use std::rc::Rc;
    use std::sync::MutexGuard;
    // ordered and hashed, whatever the part
    macro_rules! wrap {
        ($($n:ident $t:ty;)*) => {$(
            struct $n(PhantomData<$t>);
            impl PartialEq for $n { fn eq(&self, _: &Self) -> bool { true } }
            impl Eq for $n {}
            impl PartialOrd for $n { fn partial_cmp(&self, _: &Self) -> Option<Ordering> { Some(Ordering::Equal) } }
            impl Ord for $n { fn cmp(&self, _: &Self) -> Ordering { Ordering::Equal } }
            impl Hash for $n { fn hash<S: Hasher>(&self, _: &mut S) {} }
            impl std::hash::BuildHasher for $n { type Hasher = H; fn build_hasher(&self) -> H { H(0) } }
        )*};
    }
    wrap! { Both u32; Neither Rc<u8>; OnlySend Cell<u8>; OnlySync MutexGuard<'static, u8>; }
    let mut cs: Vec<(String, [bool; 2], [bool; 2], bool)> = vec![];
    /// What iteration by exclusive reference gives.
    type Each<C> = <&'static mut C as IntoIterator>::IntoIter;
    macro_rules! m {
        ($t:ty) => {{
            let x = Marks::<$t>(PhantomData);
            [(&&x).send(), (&&x).sync()]
        }};
    }
    macro_rules! one {
        ($e:ident: $($s:ident)*) => {
            let e = m!($e);
            let n = stringify!($e);
            cs.push((format!("CircularBuffer<{}>", n), m!(Cb<$e>), e, true));
            cs.push((format!("circular_buffer::IntoIter<{}>", n), m!(IntoIter<$e>), e, false));
            cs.push((format!("circular_buffer::Drain<{}>", n), m!(Drain<'static, $e>), e, false));
            cs.push((format!("circular_buffer::IterMut<{}>", n), m!(IterMut<'static, $e>), e, false));
            cs.push((format!("circular_buffer::Iter<{}>", n), m!(Iter<'static, $e>), [e[1], e[1]], false));
            cs.push((format!("iterator of DisjointSet<{}>", n), m!(Each<DisjointSet<$e, RandomState>>), [e[1], e[1]], false));
            cs.push((format!("iterator of Counter<{}>", n), m!(<Counter<$e, RandomState> as IntoIterator>::IntoIter), e, false));
            cs.push((format!("Interval<{}>", n), m!(Interval<$e>), e, true));
            cs.push((format!("LowerBound<{}>", n), m!(LowerBound<$e>), e, true));
            cs.push((format!("UpperBound<{}>", n), m!(UpperBound<$e>), e, true));
            cs.push((format!("Counter<{}>", n), m!(Counter<$e, RandomState>), e, true));
            cs.push((format!("DisjointSet<{}>", n), m!(DisjointSet<$e, RandomState>), e, true));
            $({
                let s = m!($s);
                cs.push((format!("Counter<{}, {}>", n, stringify!($s)), m!(Counter<$e, $s>), [e[0] && s[0], e[1] && s[1]], true));
                cs.push((format!("DisjointSet<{}, {}>", n, stringify!($s)), m!(DisjointSet<$e, $s>), [e[0] && s[0], e[1] && s[1]], true));
            })*
        };
    }
    one!(Both: Both Neither OnlySend OnlySync);
    one!(Neither: Both Neither OnlySend OnlySync);
    one!(OnlySend: Both Neither OnlySend OnlySync);
    one!(OnlySync: Both Neither OnlySend OnlySync);
    let c2 = cs.clone();
    cases(
        "what may be sent to and shared between threads",
        cs.len(),
        move |i| format!("{}: (Send, Sync) = {:?}, its parts {:?}", c2[i].0, c2[i].1, c2[i].2),
        move |i| {
            let (n, has, may, must) = &cs[i];
            for (j, mark) in ["Send", "Sync"].iter().enumerate() {
                if has[j] && !may[j] {
                    return Err(format!("{} is {} although its parts are not", n, mark));
                }
                if !has[j] && may[j] && *must {
                    return Err(format!("{} is not {} although its parts are", n, mark));
                }
            }
            Ok(())
        },
    )
}
fn jobs(_: &str, quick: bool) -> Vec<Box<dyn Job>> {
    let mut j = vec![marks()];
    const ONCE: &[[usize; 2]] = &[[0, 0], [1, 0], [2, 0]];
    const TWICE: &[[usize; 2]] = &[[0, 0], [1, 0], [2, 0], [3, 0], [5, 0], [1, 1], [2, 1], [1, 2], [2, 2], [3, 2]];
    let mut passed = vec![];
    fn add<O: Object>(j: &mut Vec<Box<dyn Job>>, passed: &mut Vec<Box<dyn Job>>, of: &str, quick: bool, states: [usize; 2], depth: [usize; 2]) {
        let t = (!quick) as usize;
        let n = format!("{} {}", O::NAME, of);
        j.push(explore(Threads::<O> { ks: if quick { ONCE } else { TWICE }, name: format!("{}, used by two threads", n), element: PhantomData }, Mode::Bfs { max_states: states[t] }));
        passed.push(explore(Moved::<O> { name: format!("{}, passed between threads", n), ops: (0..O::WRITE.len()).collect(), element: PhantomData }, Mode::Words { depth: depth[t] }));
        passed.push(explore(Moved::<O> { name: format!("{}, passed between threads, longer histories", n), ops: O::CORE.to_vec(), element: PhantomData }, Mode::Words { depth: [4, 5][t] - (of == Plain::NAME) as usize }));
    }
    macro_rules! both {
        ($o:ident, $s:expr, $d:expr) => {
            add::<$o<Owned>>(&mut j, &mut passed, Owned::NAME, quick, $s, $d);
            add::<$o<Plain>>(&mut j, &mut passed, Plain::NAME, quick, [$s[0] / 2, $s[1]], [2, $d[1]]);
        };
    }
    both!(Ring, [16, 200], [2, 3]);
    both!(Count, [12, 150], [2, 3]);
    both!(Sets, [24, 300], [2, 3]);
    both!(Range, [16, 200], [2, 3]);
    j.extend(passed);
    j
}

// ---- under Miri -------------------------------------------------------------------------------------
struct Kind {
    name: fn() -> String,
    write: &'static [&'static str],
    view: fn(&[usize]) -> Out,
    leaves: usize,
    /// For the list: whether to take that leaf with such a schedule in the given tier, for the n-th state.
    take: fn(usize, usize, usize, usize) -> bool,
    run: fn(&[usize], usize, usize) -> Option<Res>,
    show: fn(usize, usize) -> String,
    states: [usize; 2],
}
const KS: &[[usize; 2]] = &[[0, 0], [1, 0], [2, 0], [1, 1]];
/// Leaf numbers from here: all operations moved between two threads.
const MOVED: usize = 60_000;
fn kind<O: Object>(name: fn() -> String, states: [usize; 2]) -> Kind {
    Kind {
        name,
        write: O::WRITE,
        view: |w| reached::<O>(w).view(),
        leaves: leaves::<O>(),
        take: |tier, state, l, k| match leaf::<O>(l) {
            Leaf::AllShared | Leaf::AllApart(_) => k < 2,
            Leaf::Split(_) => k < 2,
            // the detector needs no particular schedule; one object of each pair is enough
            Leaf::Shared(a, b) if O::READ[a] == "Debug" || O::READ[b] == "Debug" => a == b && k == 0 && state < 2,
            Leaf::Shared(a, b) => a <= b && (k == 0 && state < [2, 12][tier] || tier == 1 && k == 1 && state < 4),
            Leaf::Other(a, b) => k == 0 && a == b && state < [1, 4][tier],
            Leaf::Apart(a, b, c) => k == 0 && (a == b || tier == 1 && a < b) && state < [4, 8][tier],
        },
        run: |w, l, k| {
            if l == MOVED {
                let by: Vec<usize> = (0..w.len()).map(|i| i % 2).collect();
                return Some(moved::<O>(w, &by));
            }
            judge::<O>(w, leaf::<O>(l), KS[k])
        },
        show: |l, k| if l == MOVED { "the operations alternate between two threads".into() } else { shown::<O>(leaf::<O>(l), KS[k]) },
        states,
    }
}
fn kinds() -> Vec<Kind> {
    fn n<O: Object, T: El>() -> String {
        format!("{} {}", O::NAME, T::NAME)
    }
    vec![
        kind::<Ring<Owned>>(n::<Ring<Owned>, Owned>, [12, 80]),
        kind::<Count<Owned>>(n::<Count<Owned>, Owned>, [10, 60]),
        kind::<Sets<Owned>>(n::<Sets<Owned>, Owned>, [12, 80]),
        kind::<Range<Owned>>(n::<Range<Owned>, Owned>, [10, 60]),
        kind::<Ring<Plain>>(n::<Ring<Plain>, Plain>, [3, 30]),
        kind::<Count<Plain>>(n::<Count<Plain>, Plain>, [3, 30]),
        kind::<Sets<Plain>>(n::<Sets<Plain>, Plain>, [3, 30]),
        kind::<Range<Plain>>(n::<Range<Plain>, Plain>, [3, 30]),
    ]
}
fn list(kinds: fn() -> Vec<Kind>, tier: usize, path: &str) {
    let mut out = std::fs::File::create(path).unwrap();
    for (t, k) in kinds().iter().enumerate() {
        let mut seen: HashSet<Out> = HashSet::new();
        let mut front: Vec<Vec<usize>> = vec![];
        let mut transitions = 0;
        // no panic may keep the others from being written down
        let view = |w: &[usize]| catch_unwind(AssertUnwindSafe(|| (k.view)(w))).unwrap_or(vec![-99999]);
        seen.insert(view(&[]));
        front.push(vec![]);
        let mut i = 0;
        while i < front.len() && i < k.states[tier] {
            let w = front[i].clone();
            let s: Vec<String> = w.iter().map(|x| x.to_string()).collect();
            for l in 0..k.leaves {
                for (n, _) in KS.iter().enumerate() {
                    if (k.take)(tier, i, l, n) && (!NESTED.load(Relaxed) || catch_unwind(AssertUnwindSafe(|| (k.run)(&w, l, n).is_some())).unwrap_or(true)) {
                        writeln!(out, "{} {} {}", t, l * KS.len() + n, s.join(",")).unwrap();
                        transitions += 1;
                    }
                }
            }
            for op in 0..k.write.len() {
                let mut w = w.clone();
                w.push(op);
                if !NESTED.load(Relaxed) {
                    let s: Vec<String> = w.iter().map(|x| x.to_string()).collect();
                    writeln!(out, "{} {} {}", t, MOVED * KS.len(), s.join(",")).unwrap();
                    transitions += 1;
                }
                if seen.insert(view(&w)) {
                    front.push(w)
                }
            }
            i += 1;
        }
        println!("{}\t{}\t{}\t{}\t{}", (k.name)(), seen.len(), i, transitions, i == front.len());
    }
}
fn show(kinds: fn() -> Vec<Kind>, line: &str) -> String {
    let p: Vec<&str> = line.split(' ').collect();
    let ks = kinds();
    let k = &ks[p[0].parse::<usize>().unwrap()];
    let l: usize = p[1].parse().unwrap();
    let mut ops: Vec<String> = p[2].split(',').filter(|s| !s.is_empty()).map(|o| k.write[o.parse::<usize>().unwrap()].to_string()).collect();
    ops.push((k.show)(l / KS.len(), l % KS.len()));
    format!("{}: {}", (k.name)(), ops.join("; "))
}
/// Executes every history of the file; interpreted, so as little work as possible around it.
fn execute(path: &str, mut f: impl FnMut(usize, usize, &[usize])) {
    extern "C" {
        fn write(fd: i32, p: *const u8, n: usize) -> isize;
    }
    let say = |b: &[u8]| {
        let _ = unsafe { write(1, b.as_ptr(), b.len()) };
    };
    let text = std::fs::read(path).unwrap();
    let (mut i, mut numbers) = (0, Vec::with_capacity(16));
    while i < text.len() {
        let (mut n, mut digits, from) = (0, false, i);
        numbers.clear();
        loop {
            let c = text[i];
            i += 1;
            if c >= b'0' && c <= b'9' {
                n = n * 10 + (c - b'0') as usize;
                digits = true;
            } else {
                if digits {
                    numbers.push(n)
                }
                n = 0;
                digits = false;
                if c == b'\n' {
                    break;
                }
            }
        }
        say(b"at ");
        say(&text[from..i]);
        f(numbers[0], numbers[1], &numbers[2..]);
    }
    say(b"finished\n");
}
fn run(kinds: fn() -> Vec<Kind>, jobs: fn(&str, bool) -> Vec<Box<dyn Job>>) {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "list" => {
            std::panic::set_hook(Box::new(|_| {}));
            list(kinds, (a[2] != "quick") as usize, &a[3])
        }
        "show" => println!("{}", show(kinds, &a[2])),
        "races" => {
            std::panic::set_hook(Box::new(|_| {}));
            let ks = kinds();
            execute(&a[2], |t, l, w| {
                let _ = (ks[t].run)(w, l / KS.len(), l % KS.len());
            })
        }
        _ => main_with(jobs),
    }
}
fn main() {
    run(kinds, jobs)
}
