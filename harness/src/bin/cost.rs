//! C35: every instruction an operation executes is counted (single-stepping by the trap flag of the processor, in the
//! process itself), for every operation from every boundary layout and size, and compared with the same operation on
//! small collections. No clock is involved; only the state of the allocator makes counts vary slightly, far within the
//! factors allowed.
#![allow(dead_code, unused_imports)]
use advanced_collections::circular_buffer::CircularBuffer as Cb;
use advanced_collections::counter::Counter;
use advanced_collections::disjoint_set::DisjointSet;
use fnv::FnvBuildHasher;
use mc::*;
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::collections::HashMap;
use std::fmt::Debug;
use std::hint::black_box;
use std::sync::OnceLock;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {{ mc::obs(); if !($c) { return Err(format!($($a)*)); } }};
}

// ---- counting instructions --------------------------------------------------------------------------
thread_local! {
    static STEPS: Cell<u64> = const { Cell::new(0) };
    /// counting more is pointless
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
}
/// The thread that found a violation: the others stop counting.
static FOUND: AtomicUsize = AtomicUsize::new(0);
fn me() -> usize {
    thread_local! { static ME: Cell<u8> = const { Cell::new(0) } }
    ME.with(|m| m as *const _ as usize)
}
fn elsewhere() -> bool {
    let f = FOUND.load(Relaxed);
    f != 0 && f != me()
}
fn found(r: Res) -> Res {
    if r.is_err() && FOUND.compare_exchange(0, me(), Relaxed, Relaxed).is_err() && elsewhere() {
        return Ok(());
    }
    r
}
struct Counting;
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let _ = BYTES.try_with(|b| b.set(b.get() + l.size() as u64));
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;
fn bytes() -> u64 {
    BYTES.with(|b| b.get())
}
#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
mod step {
    use super::*;
    use std::arch::asm;
    #[repr(C)]
    struct Act {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    extern "C" {
        fn sigaction(sig: i32, new: *const Act, old: *mut Act) -> i32;
    }
    extern "C" fn on(_: i32, _: *const u8, ctx: *mut u8) {
        STEPS.with(|n| {
            n.set(n.get() + 1);
            if n.get() & 0xfff == 0 {
                tick()
            }
            if n.get() > LIMIT.with(|l| l.get()) || n.get() & 0xfff == 0 && elsewhere() {
                // enough: the rest runs unobserved (EFLAGS of the interrupted context)
                unsafe { *(ctx.add(40 + 17 * 8) as *mut u64) &= !0x100 }
            }
        })
    }
    pub fn init() {
        // SA_SIGINFO | SA_RESTART
        unsafe { sigaction(5, &Act { handler: on as *const () as usize, mask: [0; 16], flags: 0x1000_0004, restorer: 0 }, std::ptr::null_mut()) };
    }
    #[inline(never)]
    pub fn start() {
        unsafe { asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
    }
    #[inline(never)]
    pub fn stop() {
        unsafe { asm!("pushfq", "and qword ptr [rsp], ~0x100", "popfq") }
    }
}
#[cfg(not(all(target_arch = "x86_64", target_os = "linux")))]
mod step {
    pub fn init() {}
    pub fn start() {}
    pub fn stop() {}
}
/// The instructions `f` executes, plus one for every 8 bytes it allocates (growing counts in full: it copies; vector
/// instructions would hide that). What `f` returns is dropped uncounted.
fn steps<R>(f: impl FnOnce() -> R) -> u64 {
    STEPS.with(|n| n.set(0));
    let b = bytes();
    step::start();
    let r = f();
    step::stop();
    let n = STEPS.with(|n| n.get()) + (bytes() - b) / 8;
    drop(black_box(r));
    tick();
    n
}
fn works() -> bool {
    static W: OnceLock<bool> = OnceLock::new();
    *W.get_or_init(|| {
        let f = |k: u64| {
            let mut x = 0;
            for i in 0..k {
                x = black_box(x + i)
            }
            x
        };
        let (a, b) = (steps(|| f(black_box(100))), steps(|| f(black_box(1100))));
        (100..5000).contains(&a) && (1000..20000).contains(&(b - a))
    })
}

// ---- circular buffer --------------------------------------------------------------------------------
fn layout<T>(mk: fn(u32) -> T, cap: usize, rot: usize, len: usize) -> Cb<T> {
    let mut b = Cb::new(cap);
    if cap > 0 {
        for i in 0..rot {
            b.push_back(mk(i as u32));
            b.pop_front();
        }
    }
    for i in 0..len {
        b.push_back(mk(i as u32))
    }
    b
}
fn lens(c: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, c / 2, c.saturating_sub(1), c];
    v.retain(|x| *x <= c);
    v.sort();
    v.dedup();
    v
}
fn rots(c: usize, len: usize) -> Vec<usize> {
    let n = c + 1;
    let mut v = vec![0, 1, 2, c / 2, n - 1, n.saturating_sub(2), (2 * n - len) % n, (2 * n - len / 2) % n, (2 * n + 1 - len) % n, 5 * n + c / 3];
    v.sort();
    v.dedup();
    v
}
fn constant<T: Clone + 'static>() -> Vec<(&'static str, fn(&mut Cb<T>, T) -> u64)> {
    vec![
        ("push_back", |b, v| steps(|| b.push_back(v))),
        ("push_front", |b, v| steps(|| b.push_front(v))),
        ("pop_back", |b, _| steps(|| b.pop_back())),
        ("pop_front", |b, _| steps(|| b.pop_front())),
        ("index of the first", |b, _| if b.is_empty() { 0 } else { steps(|| black_box(&b[0]) as *const T) }),
        ("index of the middle", |b, _| if b.is_empty() { 0 } else { let i = b.len() / 2; steps(|| black_box(&b[i]) as *const T) }),
        ("index of the last", |b, _| if b.is_empty() { 0 } else { let i = b.len() - 1; steps(|| black_box(&b[i]) as *const T) }),
        ("writing through an index", |b, v| if b.is_empty() { 0 } else { let i = b.len() - 1; steps(|| b[i] = v) }),
        ("first", |b, _| steps(|| b.first().map(|x| x as *const T))),
        ("last", |b, _| steps(|| b.last().map(|x| x as *const T))),
        ("first_mut", |b, _| steps(|| b.first_mut().map(|x| x as *mut T))),
        ("last_mut", |b, _| steps(|| b.last_mut().map(|x| x as *mut T))),
        ("len, is_empty, is_full and capacity", |b, _| steps(|| (b.len(), b.is_empty(), b.is_full(), b.capacity()))),
        ("swap", |b, _| if b.is_empty() { 0 } else { let (i, k) = (b.len() / 3, b.len() - 1); steps(|| b.swap(i, k)) }),
    ]
}
fn ring_constant<T: Clone + Send + 'static>(name: &str, mk: fn(u32) -> T, caps: Vec<usize>) -> Vec<Box<dyn Job>> {
    let base: std::sync::Arc<OnceLock<Vec<u64>>> = Default::default();
    caps.into_iter()
        .map(|c| {
            let l: Vec<(usize, usize)> = lens(c).into_iter().flat_map(|n| rots(c, n).into_iter().map(move |r| (n, r))).collect();
            let l2 = l.clone();
            let base = base.clone();
            cases(
                format!("cost of elementary operations at capacity {}, {}", c, name),
                l.len(),
                move |i| format!("{} elements after {} pushes and pops", l2[i].0, l2[i].1),
                move |i| found((|| {
                    if elsewhere() {
                        return Ok(());
                    }
                    let ops = constant::<T>();
                    let base = base.get_or_init(|| {
                        let mut v = vec![0; ops.len()];
                        for c in 1..=6 {
                            for n in 0..=c {
                                for r in 0..=c {
                                    for (k, o) in ops.iter().enumerate() {
                                        v[k] = v[k].max(o.1(&mut layout(mk, c, r, n), mk(7)))
                                    }
                                }
                            }
                        }
                        v
                    });
                    for (k, o) in ops.iter().enumerate() {
                        let n = upto(8 * base[k] + 250, || o.1(&mut layout(mk, c, l[i].1, l[i].0), mk(7)));
                        ensure!(n <= 8 * base[k] + 250, "{} costs {}{}, on buffers of capacity 1 to 6 at most {}", o.0, n, more(n, 8 * base[k] + 250), base[k]);
                    }
                    Ok(())
                })()),
            )
        })
        .collect()
}
/// Counts up to the limit and a little.
fn upto(limit: u64, f: impl FnOnce() -> u64) -> u64 {
    LIMIT.with(|l| l.set(limit + 1));
    let n = f();
    LIMIT.with(|l| l.set(u64::MAX));
    n
}
fn more(n: u64, limit: u64) -> &'static str {
    if n > limit {
        " or more instructions"
    } else {
        " instructions"
    }
}
/// Operations on everything: proportional to the number of elements. `f(n, variant)`
type Linear = (&'static str, usize, fn(usize, usize) -> u64);
fn linear(what: &str, list: Vec<Linear>, sizes: Vec<usize>) -> Box<dyn Job> {
    let names: Vec<String> = list.iter().flat_map(|l| (0..l.1).map(move |v| format!("{}, variant {}", l.0, v))).collect();
    let all: Vec<(&'static str, usize, fn(usize, usize) -> u64)> = list.into_iter().flat_map(|l| (0..l.1).map(move |v| (l.0, v, l.2))).collect();
    cases(
        format!("cost of operations on the whole content, {}", what),
        all.len(),
        move |i| names[i].clone(),
        move |i| found((|| {
            if elsewhere() {
                return Ok(());
            }
            let (name, v, f) = all[i];
            let small = (28..=36).step_by(4).map(|n| f(n, v) / n as u64 + 1).max().unwrap();
            for n in &sizes {
                let bound = 5 * small * *n as u64 + 20_000;
                let t = upto(bound, || f(*n, v));
                ensure!(t <= bound, "{} costs {}{} for {} elements, but {} per element for 28, 32 or 36 of them", name, t, more(t, bound), n, small);
            }
            Ok(())
        })()),
    )
}
fn wide(x: u32) -> [u64; 8] {
    [x as u64; 8]
}
/// variants: rotation
fn rb(n: usize, v: usize) -> Cb<u32> {
    layout(|x| x, n, [0, n / 2, n][v % 3], n)
}
fn rw(n: usize, v: usize) -> Cb<[u64; 8]> {
    layout(wide, n, [0, n / 2, n][v % 3], n)
}
fn ring_linear() -> Vec<Linear> {
    vec![
        ("linearize", 3, |n, v| { let mut b = rb(n, v); steps(|| { b.linearize(); }) }),
        ("linearize (large elements)", 3, |n, v| { let mut b = rw(n, v); steps(|| { b.linearize(); }) }),
        ("reverse", 3, |n, v| { let mut b = rb(n, v); steps(|| b.reverse()) }),
        ("clear", 3, |n, v| { let mut b = rb(n, v); steps(|| b.clear()) }),
        ("clone", 3, |n, v| { let b = rb(n, v); steps(|| b.clone()) }),
        ("resize to the double", 3, |n, v| { let mut b = rb(n, v); steps(|| b.resize(2 * n)) }),
        ("resize to the half", 3, |n, v| { let mut b = rw(n, v); steps(|| b.resize(n / 2)) }),
        ("extend by value", 3, |n, v| { let mut b = rb(n, v); steps(|| b.extend(0..n as u32)) }),
        ("extend by value (large elements)", 3, |n, v| { let mut b = rw(n, v); steps(|| b.extend((0..n as u32).map(wide))) }),
        ("extend by reference", 3, |n, v| { let mut b = rb(n, v); let s: Vec<u32> = (0..n as u32).collect(); steps(|| b.extend(s.iter())) }),
        ("append", 3, |n, v| { let (mut b, mut c) = (rb(n, v), rb(n, v + 1)); steps(|| b.append(&mut c)) }),
        ("draining", 3, |n, v| { let mut b = rw(n, v); steps(|| b.drain().map(|x| x[0]).sum::<u64>()) }),
        ("by-value iteration", 3, |n, v| { let b = rw(n, v); steps(|| b.into_iter().map(|x| x[0]).sum::<u64>()) }),
        ("iteration", 3, |n, v| { let b = rb(n, v); steps(|| { let mut s = 0u32; for x in &b { s = black_box(s.wrapping_add(*x)) } s }) }),
        ("backward iteration", 3, |n, v| { let b = rb(n, v); steps(|| { let mut s = 0u32; for x in b.iter().rev() { s = black_box(s.wrapping_add(*x)) } s }) }),
        ("mutable iteration", 3, |n, v| { let mut b = rb(n, v); steps(|| { for x in b.iter_mut() { *x = black_box(*x + 1) } }) }),
        ("indexing everything", 3, |n, v| { let b = rb(n, v); steps(|| { let mut s = 0u32; for i in 0..b.len() { s = black_box(s.wrapping_add(b[i])) } s }) }),
        ("==", 3, |n, v| { let (b, c) = (rb(n, v), rb(n, v + 1)); steps(|| b == c) }),
        ("cmp", 3, |n, v| { let (b, c) = (rb(n, v), rb(n, v + 1)); steps(|| b.cmp(&c)) }),
        ("building from a vector", 1, |n, _| { let s: Vec<u32> = (0..n as u32).collect(); steps(|| Cb::from(s)) }),
        ("building from an iterator", 1, |n, _| steps(|| (0..n as u32).filter(|x| black_box(*x) != 1).collect::<Cb<u32>>())),
        ("creating an empty one", 1, |n, _| steps(|| Cb::<u32>::with_capacity(n))),
        ("as many pushes and pops, front", 3, |n, v| { let mut b = rw(n, v); steps(|| for i in 0..n { b.push_front(wide(i as u32)); if i % 3 == 0 { b.pop_back(); } }) }),
        ("as many pushes and pops, back", 3, |n, v| { let mut b = rw(n, v); steps(|| for i in 0..n { b.push_back(wide(i as u32)); if i % 3 == 0 { b.pop_front(); } }) }),
        ("emptying by pop_front", 3, |n, v| { let mut b = rw(n, v); steps(|| while b.pop_front().is_some() {}) }),
        ("emptying by pop_back", 3, |n, v| { let mut b = rw(n, v); steps(|| while b.pop_back().is_some() {}) }),
    ]
}

// ---- counter ----------------------------------------------------------------------------------------
type C = Counter<u32, FnvBuildHasher>;
fn cnt(n: usize, off: usize) -> C {
    let mut c = C::with_capacity_and_hasher(0, FnvBuildHasher::default());
    for i in 0..n {
        for _ in 0..1 + i % 3 {
            c.push((i + off) as u32)
        }
    }
    c
}
fn room(n: usize) -> C {
    let mut c = C::with_capacity_and_hasher(2 * n + 10, FnvBuildHasher::default());
    c.extend(0..n as u32);
    c
}
fn keys(n: usize) -> Vec<u32> {
    (0..12).map(|i| (i * n / 12) as u32).collect()
}
/// Elementary operations: `f(n)` is the largest cost over the keys tried. The second number is allowed per doubling.
type Elementary = (&'static str, u64, fn(usize) -> u64);
fn elementary(what: &str, list: Vec<Elementary>, sizes: Vec<usize>) -> Box<dyn Job> {
    let names: Vec<String> = list.iter().map(|l| l.0.to_string()).collect();
    cases(
        format!("cost of elementary operations, {}", what),
        list.len(),
        move |i| names[i].clone(),
        move |i| found((|| {
            if elsewhere() {
                return Ok(());
            }
            let (name, per, f) = list[i];
            let small = [4, 5, 8, 11].into_iter().map(f).max().unwrap();
            for n in &sizes {
                let bound = 8 * small + 500 + per * n.ilog2() as u64;
                let t = upto(bound, || f(*n));
                ensure!(t <= bound, "{} costs {}{} with {} elements, but at most {} with 4 to 11 of them", name, t, more(t, bound), n, small);
            }
            Ok(())
        })()),
    )
}
fn counter_elementary() -> Vec<Elementary> {
    vec![
        ("pushing a known element", 0, |n| { let mut c = room(n); keys(n).into_iter().map(|k| steps(|| c.push(k))).max().unwrap() }),
        ("pushing a new element with room for it", 0, |n| { let mut c = room(n); (0..6).map(|k| steps(|| c.push((n + k) as u32))).max().unwrap() }),
        ("looking up", 0, |n| { let c = room(n); keys(n).into_iter().map(|k| steps(|| c.get(&k).copied())).max().unwrap() }),
        ("looking up an unknown element", 0, |n| { let c = room(n); (0..6).map(|k| steps(|| c.get(&((n + k) as u32)).copied())).max().unwrap() }),
        ("removing", 0, |n| { let mut c = room(n); keys(n).into_iter().map(|k| steps(|| c.remove(&k))).max().unwrap() }),
        ("len", 0, |n| { let c = room(n); steps(|| (c.len(), c.is_empty())) }),
    ]
}
fn counter_linear() -> Vec<Linear> {
    vec![
        ("pushing distinct elements", 1, |n, _| { let mut c = cnt(0, 0); steps(|| for i in 0..n { c.push(i as u32) }) }),
        ("pushing equal elements", 1, |n, _| { let mut c = cnt(0, 0); steps(|| for _ in 0..n { c.push(7) }) }),
        ("pushing the elements of a large counter", 1, |n, _| { let mut c = cnt(n, 0); steps(|| for i in 0..n { c.push(i as u32) }) }),
        ("extending by value", 2, |n, v| { let mut c = cnt(v * n / 2, 0); steps(|| c.extend(0..n as u32)) }),
        ("extending without a hint", 2, |n, v| { let mut c = cnt(v * n / 2, 0); steps(|| c.extend((0..n as u32).filter(|x| black_box(*x) != 3))) }),
        ("extending by reference", 2, |n, v| { let mut c = cnt(v * n / 2, 0); let s: Vec<u32> = (0..n as u32).collect(); steps(|| c.extend(s.iter())) }),
        ("building by value", 1, |n, _| steps(|| (0..n as u32).collect::<C>())),
        ("building by reference", 1, |n, _| { let s: Vec<u32> = (0..n as u32).collect(); steps(|| s.iter().collect::<C>()) }),
        ("most_common", 3, |n, v| { let c = sorted(n, v); steps(|| c.most_common()) }),
        ("into_most_common", 3, |n, v| { let c = sorted(n, v); steps(|| c.into_most_common()) }),
        ("+=", 3, |n, v| { let (mut a, b) = (cnt(n, 0), cnt(n, [0, n / 2, n][v])); steps(|| a += b) }),
        ("+= by reference", 3, |n, v| { let (mut a, b) = (cnt(n, 0), cnt(n, [0, n / 2, n][v])); steps(|| a += &b) }),
        ("+", 3, |n, v| { let (a, b) = (cnt(n, 0), cnt(n, [0, n / 2, n][v])); steps(|| a + b) }),
        ("+ by reference", 3, |n, v| { let (a, b) = (cnt(n, 0), cnt(n, [0, n / 2, n][v])); steps(|| a + &b) }),
        ("-=", 3, |n, v| { let (mut a, b) = (cnt(n, 0), cnt(n, [0, n / 2, n][v])); steps(|| a -= b) }),
        ("-= by reference", 3, |n, v| { let (mut a, b) = (cnt(n, 0), cnt(n, [0, n / 2, n][v])); steps(|| a -= &b) }),
        ("-", 3, |n, v| { let (a, b) = (cnt(n, 0), cnt(n, [0, n / 2, n][v])); steps(|| a - b) }),
        ("- by reference", 3, |n, v| { let (a, b) = (cnt(n, 0), cnt(n, [0, n / 2, n][v])); steps(|| a - &b) }),
        ("clone", 1, |n, _| { let c = cnt(n, 0); steps(|| c.clone()) }),
        ("==", 2, |n, v| { let (a, b) = (cnt(n, 0), cnt(n, v)); steps(|| a == b) }),
        ("iteration", 1, |n, _| { let a = cnt(n, 0); steps(|| { let mut s = 0; for (_, c) in &a { s = black_box(s + c) } s }) }),
        ("mutable iteration", 1, |n, _| { let mut a = cnt(n, 0); steps(|| { for (_, c) in &mut a { *c = black_box(*c + 1) } }) }),
        ("by-value iteration", 1, |n, _| { let a = cnt(n, 0); steps(|| { let mut s = 0; for (_, c) in a { s = black_box(s + c) } s }) }),
        ("conversion from a map", 1, |n, _| { let m: HashMap<u32, usize, FnvBuildHasher> = (0..n as u32).map(|x| (x, 1)).collect(); steps(|| C::from(m)) }),
        ("conversion from a borrowed map", 1, |n, _| { let m: HashMap<u32, usize, FnvBuildHasher> = (0..n as u32).map(|x| (x, 1)).collect(); steps(|| C::from(&m)) }),
        ("wrapping a map", 1, |n, _| { let m: HashMap<u32, usize, FnvBuildHasher> = (0..n as u32).map(|x| (x, 1)).collect(); steps(|| C::from_hashmap(m)) }),
    ]
}
fn sorted(n: usize, v: usize) -> C {
    let mut m: HashMap<u32, usize, FnvBuildHasher> = Default::default();
    for i in 0..n {
        m.insert(i as u32, [i + 1, 5, n - i + 7][v]);
    }
    C::from_hashmap(m)
}

// ---- disjoint set -----------------------------------------------------------------------------------
type D = DisjointSet<u32, FnvBuildHasher>;
fn dset(n: usize) -> D {
    D::with_capacity_and_hasher(2 * n + 10, FnvBuildHasher::default())
}
const ORDERS: usize = 6;
/// The k-th union of an order on n elements.
fn order(n: usize, v: usize) -> Vec<(u32, u32)> {
    let mut o = vec![];
    let n = n as u32;
    match v {
        0 => o.extend((1..n).map(|i| (i - 1, i))),
        1 => o.extend((1..n).map(|i| (i, i - 1))),
        2 => o.extend((1..n).map(|i| (0, i))),
        3 => o.extend((1..n).map(|i| (i, 0))),
        4 | 5 => {
            let mut s = 1;
            while s < n {
                let mut i = 0;
                while i + s < n {
                    o.push(if v == 4 { (i, i + s) } else { (i + 2 * s - 1, i + s - 1) });
                    i += 2 * s;
                }
                s *= 2;
            }
            o.iter_mut().for_each(|p| p.0 = p.0.min(n - 1));
        }
        _ => {}
    }
    o
}
fn joined(n: usize, v: usize) -> D {
    let mut d = dset(n);
    d.extend(0..n as u32);
    for (a, b) in order(n, v) {
        d.union(a, b)
    }
    d
}
fn worst(n: usize, f: fn(&mut D, u32, u32) -> u64) -> u64 {
    let mut w = 0;
    for v in 0..=ORDERS {
        let k = keys(n);
        for i in 0..k.len() {
            let mut d = if i % 4 == 0 { joined(n, v) } else { continue };
            for j in 0..4 {
                w = w.max(f(&mut d, k[(i + j) % 12], k[(i + 5 * j + 1) % 12]));
            }
        }
        let mut d = joined(n, v);
        w = w.max(f(&mut d, n as u32 - 1, 0));
    }
    // two large halves
    for v in 0..ORDERS {
        let mut d = dset(n);
        d.extend(0..n as u32);
        let h = n as u32 / 2;
        for (a, b) in order(n / 2, v) {
            d.union(a, b);
            d.union(h + a, h + b);
        }
        w = w.max(f(&mut d, h - 1, 2 * h - 1));
    }
    w
}
fn dset_elementary() -> Vec<Elementary> {
    vec![
        ("union", 250, |n| worst(n, |d, a, b| steps(|| d.union(a, b)))),
        ("in_union", 250, |n| worst(n, |d, a, b| steps(|| d.in_union(&a, &b)))),
        ("a query after a union", 250, |n| worst(n, |d, a, b| { d.union(a, b); steps(|| d.in_union(&b, &a)) })),
        ("make_set of a known element", 0, |n| worst(n, |d, a, _| steps(|| d.make_set(a)))),
        ("make_set of a new element with room for it", 0, |n| worst(n, |d, a, _| { let k = d.len() as u32 + 1; let _ = a; if d.contains(&k) { 0 } else { steps(|| d.make_set(k)) } })),
        ("union with a new element", 250, |n| worst(n, |d, a, _| { let k = d.len() as u32; steps(|| d.union(a, k)) })),
        ("union of a new element with an old one", 250, |n| worst(n, |d, a, _| { let k = d.len() as u32; steps(|| d.union(k, a)) })),
        ("contains", 0, |n| worst(n, |d, a, b| steps(|| (d.contains(&a), d.contains(&(b + 1_000_000_000)))))),
        ("len", 0, |n| worst(n, |d, _, _| steps(|| (d.len(), d.is_empty())))),
    ]
}
fn dset_linear() -> Vec<Linear> {
    vec![
        ("joining all elements", ORDERS, |n, v| { let o = order(n, v); let mut d = dset(0); steps(|| for (a, b) in o { d.union(a, b) }) }),
        ("joining all elements, created before", ORDERS, |n, v| { let o = order(n, v); let mut d = joined(n, ORDERS); steps(|| for (a, b) in o { d.union(a, b) }) }),
        ("asking about all elements", ORDERS + 1, |n, v| { let mut d = joined(n, v); steps(|| { for i in 1..n as u32 { black_box(d.in_union(&(i - 1), &i)); } }) }),
        ("asking and joining in turn", ORDERS, |n, v| { let o = order(n, v); let mut d = dset(0); steps(|| for (a, b) in o { d.union(a, b); black_box(d.in_union(&a, &0)); }) }),
        ("making sets", 1, |n, _| { let mut d = D::default(); steps(|| for i in 0..n as u32 { d.make_set(i) }) }),
        ("making sets of an iterator without a hint", 1, |n, _| steps(|| (0..n as u32).filter(|x| black_box(*x) != 3).collect::<D>())),
        ("making one set again and again", 1, |n, _| { let mut d = joined(n, 0); steps(|| for _ in 0..n { d.make_set(1) }) }),
        ("extending by value", 2, |n, v| { let mut d = joined(v * n / 2, 0); steps(|| d.extend(0..n as u32)) }),
        ("extending by reference", 2, |n, v| { let mut d = joined(v * n / 2, 0); let s: Vec<u32> = (0..n as u32).collect(); steps(|| d.extend(s.iter())) }),
        ("building by value", 1, |n, _| steps(|| (0..n as u32).collect::<D>())),
        ("building by reference", 1, |n, _| { let s: Vec<u32> = (0..n as u32).collect(); steps(|| s.iter().collect::<D>()) }),
        ("iteration over all subsets", ORDERS + 1, |n, v| { let mut d = joined(n, v); steps(|| { let mut k = 0u32; for s in &mut d { for x in s { k = black_box(k ^ x) } } k }) }),
        ("clone", 1, |n, _| { let d = joined(n, 0); steps(|| d.clone()) }),
        ("clear", 1, |n, _| { let mut d = joined(n, 0); steps(|| d.clear()) }),
    ]
}

fn jobs(_prop: &str, quick: bool) -> Vec<Box<dyn Job>> {
    step::init();
    let mut js: Vec<Box<dyn Job>> = vec![];
    if !works() {
        // check.py reports this as not exhaustive
        js.push(cases("counting instructions is not possible here", 1, |_| "nothing explored".to_string(), |_| Ok(())));
        return js;
    }
    let caps = if quick { vec![8, 17, 64, 255, 1024, 4096, 65535, 65536] } else { vec![7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 10000, 16384, 65535, 65536, 65537, 262144] };
    js.extend(ring_constant::<u32>("u32", |x| x, caps.clone()));
    js.extend(ring_constant::<[u64; 8]>("large elements", wide, caps.clone()));
    js.extend(ring_constant::<Box<u32>>("boxes", Box::new, caps));
    let sizes = |n| if quick { vec![n] } else { vec![500, 2000, 7000] };
    // one job per operation keeps all processors busy; the long ones first
    for l in dset_elementary() {
        js.push(elementary("disjoint set", vec![l], if quick { vec![100, 5000, 40000] } else { vec![100, 1000, 5000, 65536, 1 << 18] }));
    }
    for l in counter_elementary() {
        js.push(elementary("counter", vec![l], if quick { vec![100, 5000, 1 << 17] } else { vec![100, 1000, 5000, 65536, 1 << 17, 1 << 20] }));
    }
    for l in dset_linear() {
        // copies of everything are cheap, only many show
        let n = if l.0.starts_with("making sets") { 5000 } else { 1000 };
        js.push(linear("disjoint set", vec![l], sizes(n)));
    }
    for l in counter_linear() {
        let n = if l.0.ends_with("most_common") { 4000 } else { 1500 };
        js.push(linear("counter", vec![l], sizes(n)));
    }
    for l in ring_linear() {
        js.push(linear("circular buffer", vec![l], sizes(3000)));
    }
    js
}
fn main() {
    main_with(jobs)
}
