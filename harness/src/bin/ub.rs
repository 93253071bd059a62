//! C08, memory-model part: small histories of a circular buffer for execution under Miri.
//! `ub list quick|thorough OUT` (native) enumerates all reachable states of the object and writes one
//! history per transition; `ub run FILE` (under Miri) executes the histories it is given.
#![allow(dead_code, unused_variables)]
use advanced_collections::circular_buffer::CircularBuffer as Cb;
use std::cell::Cell;
use std::collections::HashMap;
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

trait El: Clone + PartialEq + PartialOrd {
    fn mk(n: u32) -> Self;
    /// Reads the whole value.
    fn touch(&self) -> u32;
    /// Writes the whole value in place.
    fn poke(&mut self);
}
macro_rules! el {
    ($t:ty, $n:ident, $mk:expr, $s:ident, $touch:expr) => {
        impl El for $t {
            fn mk($n: u32) -> Self {
                $mk
            }
            fn touch(&self) -> u32 {
                let $s = self;
                $touch
            }
            fn poke(&mut self) {
                *self = Self::mk(7)
            }
        }
    };
}
el!(u32, n, n, s, *s);
el!(u8, n, n as u8, s, *s as u32);
el!(char, n, char::from_u32(n % 1000).unwrap(), s, *s as u32);
el!(bool, n, n % 2 == 0, s, if *s { 1 } else { 2 });
el!(&'static str, n, ["a", "bc"][n as usize % 2], s, s.len() as u32);
el!(Box<u32>, n, Box::new(n), s, **s);
el!(String, n, String::from(["", "ab"][n as usize % 2]), s, s.len() as u32);
el!(Option<Box<u32>>, n, if n % 3 == 0 { None } else { Some(Box::new(n)) }, s, s.as_ref().map_or(0, |b| **b));
el!((), _n, (), _s, 1);
el!(std::num::NonZeroU8, n, std::num::NonZeroU8::new(n as u8 | 1).unwrap(), s, s.get() as u32);
el!([u64; 3], n, [n as u64; 3], s, (s[0] + s[1] + s[2]) as u32);
el!((u8, u32), n, (n as u8, n), s, s.0 as u32 + s.1);
el!(Wide, n, Wide(n), s, s.0);
el!(Zd, _n, Zd, _s, 1);
el!(Boom, n, Boom(Box::new(n)), s, *s.0);

#[derive(Clone, PartialEq, PartialOrd)]
#[repr(align(32))]
struct Wide(u32);
#[derive(Clone, PartialEq, PartialOrd)]
struct Zd;
impl Drop for Zd {
    fn drop(&mut self) {
        DROPS.with(|d| d.set(d.get() + 1));
    }
}
thread_local! {
    static DROPS: Cell<u32> = const { Cell::new(0) };
    static FUSE: Cell<i32> = const { Cell::new(-1) };
}
/// Its clone and its destructor panic when the fuse burns down.
struct Boom(Box<u32>);
impl PartialEq for Boom {
    fn eq(&self, o: &Self) -> bool {
        burn();
        self.0 == o.0
    }
}
impl PartialOrd for Boom {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        burn();
        self.0.partial_cmp(&o.0)
    }
}
fn burn() {
    let f = FUSE.with(|f| f.replace(f.get().saturating_sub(1).max(-1)));
    if f == 0 {
        std::panic::panic_any(())
    }
}
impl Clone for Boom {
    fn clone(&self) -> Self {
        burn();
        Boom(self.0.clone())
    }
}
impl Drop for Boom {
    fn drop(&mut self) {
        burn();
    }
}
/// Its `next` may panic.
struct Fused<I>(I);
impl<I: Iterator> Iterator for Fused<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        burn();
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
struct Lie<I>(I, usize);
impl<I: Iterator> Iterator for Lie<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.1, Some(self.1))
    }
}

const OPS: &[&str] = &[
    "push_back", "push_front", "pop_back", "pop_front", "write [0]", "write [len-1]", "write ends", "reverse", "linearize, write", "swap(0, len-1)", "clear", "extend 1", "extend 3", "extend 1, hint 2", "extend by reference 2",
    "resize 0", "resize 1", "resize 2", "resize 3", "from vec of 2, spare room", "from iterator of 2", "from references", "append 2 of 2", "append wrapped 2 of 3", "append to another", "continue with clone", "drop clone", "drain 1, drop", "drain all",
    "owning iteration 1, drop", "owning iteration", "forget drain after 1", "forget owning iterator after 1", "write through iterators", "hold all mutable references", "write through slices", "compare", "hold all shared references", "index out of range", "clone_from wrapped 2 of 3", "clone_from into a full one of 2",
    "extend 3, hint 0", "extend 1, huge hint", "from iterator of 3, hint 1", "from iterator of 1, hint 3", "extend by reference 1, hint 3", "drain from the second on", "forget a new drain", "hold mutable references, from the second on", "append to one with a gap", "read during iteration, ends first", "sort slices",
    "fault: clone", "fault: clear", "fault: resize", "fault: extend by reference", "fault: drop", "fault: drain", "fault: push", "fault: owning iteration", "fault: clone_from", "fault: iterator of extend", "fault: iterator of collect", "fault: collect references", "fault: append", "fault: write", "fault: rest of a drain", "fault: resize to 0", "fault: compare", "fault: extend beyond the capacity",
];
/// Number of operations at which user code does not panic.
const CORE: usize = 52;
const BASE: usize = 128;

struct S<T> {
    cb: Cb<T>,
    n: u32,
}
impl<T: El> S<T> {
    fn new(cap: usize) -> Self {
        FUSE.with(|f| f.set(-1));
        S { cb: Cb::new(cap), n: 0 }
    }
    fn v(&mut self) -> T {
        self.n += 1;
        T::mk(self.n)
    }
    fn vs(&mut self, k: usize) -> Vec<T> {
        (0..k).map(|_| self.v()).collect()
    }
    /// Performs operation `op % BASE`, the `op / BASE`-th call of user code panics in some; false if it makes no sense here.
    fn step(&mut self, op: usize) -> bool {
        let n = self.cb.len();
        match op {
            0 => {
                let v = self.v();
                self.cb.push_back(v)
            }
            1 => {
                let v = self.v();
                self.cb.push_front(v)
            }
            2 => {
                self.cb.pop_back().map(|x| x.touch());
            }
            3 => {
                self.cb.pop_front().map(|x| x.touch());
            }
            4 if n > 0 => self.cb[0].poke(),
            5 if n > 0 => self.cb[n - 1] = T::mk(5),
            6 if n > 0 => {
                self.cb.first_mut().unwrap().poke();
                self.cb.last_mut().unwrap().poke();
            }
            7 if n > 0 => self.cb.reverse(),
            8 => {
                for x in self.cb.linearize() {
                    x.poke()
                }
            }
            9 if n > 0 => self.cb.swap(0, n - 1),
            10 if n > 0 => self.cb.clear(),
            11 => {
                let v = self.vs(1);
                self.cb.extend(v)
            }
            12 => {
                let v = self.vs(3);
                self.cb.extend(v)
            }
            13 => {
                let v = self.vs(1);
                self.cb.extend(Lie(v.into_iter(), 2))
            }
            14 => {
                let v = self.vs(2);
                self.cb.extend(v.iter())
            }
            15..=18 => self.cb.resize(op - 15),
            19 => {
                let mut v = Vec::with_capacity(4);
                v.extend(self.vs(2));
                self.cb = Cb::from(v)
            }
            20 => {
                let v = self.vs(2);
                self.cb = v.into_iter().filter(|_| true).collect()
            }
            21 => {
                let v = self.vs(2);
                self.cb = v.iter().collect()
            }
            22 => {
                let mut o: Cb<T> = self.vs(2).into_iter().collect();
                self.cb.append(&mut o);
                o.push_back(self.v());
            }
            23 => {
                let mut o: Cb<T> = Cb::new(3);
                for _ in 0..3 {
                    let v = self.v();
                    o.push_front(v)
                }
                o.pop_back();
                self.cb.append(&mut o);
            }
            24 if n > 0 => {
                let mut o: Cb<T> = Cb::new(1);
                o.append(&mut self.cb);
                view(&mut o)
            }
            25 => self.cb = self.cb.clone(),
            26 => drop(self.cb.clone()),
            27 if n > 0 => drop(self.cb.drain().next()),
            28 if n > 0 => self.cb.drain().for_each(|x| {
                x.touch();
            }),
            29 if n > 0 => {
                let cb = std::mem::replace(&mut self.cb, Cb::new(2));
                drop(cb.into_iter().next())
            }
            30 if n > 0 => {
                let cb = std::mem::replace(&mut self.cb, Cb::new(1));
                for x in cb {
                    x.touch();
                }
            }
            31 if n > 0 => {
                let mut d = self.cb.drain();
                drop(d.next());
                std::mem::forget(d)
            }
            32 if n > 1 => {
                let mut d = std::mem::replace(&mut self.cb, Cb::new(0)).into_iter();
                drop(d.next());
                std::mem::forget(d)
            }
            33 if n > 0 => {
                for x in &mut self.cb {
                    x.poke()
                }
                for x in self.cb.iter_mut().rev() {
                    x.poke()
                }
            }
            34 if n > 0 => {
                let mut all: Vec<&mut T> = vec![];
                let mut it = self.cb.iter_mut();
                while let Some(x) = it.next() {
                    all.push(x);
                    all.extend(it.next_back());
                }
                for _ in 0..2 {
                    for x in all.iter_mut() {
                        x.touch();
                        x.poke();
                    }
                }
            }
            35 if n > 0 => {
                let (a, b) = self.cb.slices_mut();
                for _ in 0..2 {
                    for x in a.iter_mut() {
                        x.poke()
                    }
                    for x in b.iter_mut() {
                        x.poke()
                    }
                }
            }
            36 => {
                let o = self.cb.clone();
                let _ = (o == self.cb, o.partial_cmp(&self.cb), o < self.cb);
                let _ = (o == *self.cb.slices().0, o == self.cb.slices().1);
            }
            37 if n > 0 => {
                let all: Vec<&T> = self.cb.iter().collect();
                let (f, l, (a, b)) = (self.cb.first(), self.cb.last(), self.cb.slices());
                all.iter().map(|x| x.touch()).sum::<u32>();
                f.unwrap().touch();
                l.unwrap().touch();
                a.iter().chain(b).map(|x| x.touch()).sum::<u32>();
            }
            38 => {
                let r = catch_unwind(AssertUnwindSafe(|| self.cb[n].touch()));
                drop(r);
            }
            39 => {
                let mut o: Cb<T> = Cb::new(3);
                for _ in 0..3 {
                    let v = self.v();
                    o.push_front(v)
                }
                o.pop_back();
                self.cb.clone_from(&o);
                view(&mut o);
            }
            40 => {
                let mut o: Cb<T> = self.vs(2).into_iter().collect();
                o.clone_from(&self.cb);
                view(&mut self.cb);
                self.cb = o;
            }
            41 => {
                let v = self.vs(3);
                self.cb.extend(Lie(v.into_iter(), 0))
            }
            42 => {
                // any panic is fine
                let v = self.vs(1);
                let r = catch_unwind(AssertUnwindSafe(|| self.cb.extend(Lie(v.into_iter(), usize::MAX))));
                drop(r);
            }
            43 => {
                let v = self.vs(3);
                self.cb = Lie(v.into_iter(), 1).collect()
            }
            44 => {
                let v = self.vs(1);
                self.cb = Lie(v.into_iter(), 3).collect()
            }
            45 => {
                let v = self.vs(1);
                self.cb.extend(Lie(v.iter(), 3))
            }
            46 if n > 1 => {
                let mut d = self.cb.drain();
                d.nth(0).map(|x| x.touch());
                d.size_hint();
                d.nth(0).map(|x| x.touch());
            }
            47 if n > 0 => std::mem::forget(self.cb.drain()),
            48 if n > 1 => {
                let mut it = self.cb.iter_mut();
                it.nth(0);
                let mut all: Vec<&mut T> = vec![];
                all.extend(it.nth_back(0));
                all.extend(it.next());
                all.extend(it);
                for x in all.iter_mut() {
                    x.touch();
                    x.poke();
                }
            }
            49 if n > 0 => {
                let mut o: Cb<T> = Cb::new(4);
                for _ in 0..2 {
                    let v = self.v();
                    o.push_front(v)
                }
                o.append(&mut self.cb);
                view(&mut o);
                self.cb = o
            }
            50 if n > 0 => {
                let mut it = self.cb.iter();
                let (l, f) = (it.next_back(), it.next());
                let rest = it.clone();
                it.size_hint();
                l.map(|x| x.touch());
                f.map(|x| x.touch());
                rest.for_each(|x| {
                    x.touch();
                });
            }
            51 if n > 0 => {
                let (a, b) = self.cb.slices_mut();
                a.reverse();
                b.reverse();
                if let (Some(x), Some(y)) = (a.first_mut(), b.last_mut()) {
                    std::mem::swap(x, y)
                }
            }
            CORE.. => {
                // a certain call of user code panics
                let (k, fuse) = (op / BASE, op % BASE);
                let fresh = self.vs(3);
                let cb = &mut self.cb;
                FUSE.with(|f| f.set(k as i32));
                let r = catch_unwind(AssertUnwindSafe(|| match fuse - CORE {
                    0 => drop(cb.clone()),
                    1 => cb.clear(),
                    2 => cb.resize(1),
                    3 => cb.extend(fresh.iter()),
                    4 => drop(std::mem::replace(cb, Cb::new(1))),
                    5 => drop(cb.drain().nth(1)),
                    6 => {
                        for x in fresh {
                            cb.push_front(x)
                        }
                    }
                    9 => cb.extend(Fused(fresh.into_iter())),
                    10 => *cb = Fused(fresh.into_iter()).collect(),
                    11 => *cb = Fused(fresh.iter()).collect(),
                    12 => {
                        let mut o: Cb<T> = fresh.into_iter().collect();
                        cb.append(&mut o)
                    }
                    13 => {
                        let n = cb.len();
                        if let Some(x) = fresh.into_iter().next().filter(|_| n > 0) {
                            cb[n - 1] = x
                        }
                    }
                    14 => {
                        let mut d = cb.drain();
                        std::mem::forget(d.next());
                        drop(d)
                    }
                    15 => cb.resize(0),
                    16 => {
                        let o: Cb<T> = fresh.into_iter().collect();
                        let _ = (o == *cb, o < *cb);
                    }
                    17 => {
                        cb.extend(fresh);
                        cb.extend(None::<T>)
                    }
                    8 => {
                        let mut o: Cb<T> = Cb::new(1);
                        o.push_back(fresh.into_iter().next().unwrap());
                        o.clone_from(cb);
                        *cb = o
                    }
                    _ => drop(std::mem::replace(cb, Cb::new(1)).into_iter().nth(1)),
                }));
                FUSE.with(|f| f.set(-1));
                if r.is_ok() {
                    return false;
                }
            }
            _ => return false,
        }
        true
    }
}
/// Reads everything through every view.
fn view<T: El>(cb: &mut Cb<T>) {
    let n = cb.len();
    for i in 0..n {
        cb[i].touch();
    }
    for x in cb.iter() {
        x.touch();
    }
    let (a, b) = cb.slices();
    for x in a {
        x.touch();
    }
    for x in b {
        x.touch();
    }
}
fn go<T: El>(cap: usize, word: &[usize]) -> Option<Vec<u64>> {
    let mut s: S<T> = S::new(cap);
    for &o in word {
        if !s.step(o) {
            return None;
        }
    }
    view(&mut s.cb);
    let mut k = vec![s.cb.len() as u64];
    #[cfg(not(miri))]
    {
        let p = &s.cb as *const Cb<T> as *const u64;
        for i in 0..std::mem::size_of::<Cb<T>>() / 8 {
            let w = unsafe { p.add(i).read_volatile() };
            k.push(if w > 1 << 24 { 1 } else { w });
        }
    }
    Some(k)
}
const TYPES: &[(&str, fn(usize, &[usize]) -> Option<Vec<u64>>)] = &[
    ("String", go::<String>),
    ("zero-sized with destructor", go::<Zd>),
    ("panicking", go::<Boom>),
    ("&str", go::<&'static str>),
    ("u32", go::<u32>),
    ("u8", go::<u8>),
    ("char", go::<char>),
    ("bool", go::<bool>),
    ("Box<u32>", go::<Box<u32>>),
    ("Option<Box<u32>>", go::<Option<Box<u32>>>),
    ("()", go::<()>),
    ("NonZeroU8", go::<std::num::NonZeroU8>),
    ("[u64; 3]", go::<[u64; 3]>),
    ("(u8, u32)", go::<(u8, u32)>),
    ("over-aligned", go::<Wide>),
];
fn list(quick: bool, path: &str) {
    let mut out = std::fs::File::create(path).unwrap();
    let mut trying = std::fs::File::create(format!("{}.trying", path)).unwrap();
    for (t, (name, f)) in TYPES.iter().enumerate() {
        if quick && t > 3 {
            break;
        }
        // histories of this type: BFS over object states, one history per transition
        let mut ops: Vec<usize> = match (*name, quick) {
            ("panicking", true) => [0, 1, 3].to_vec(),
            (_, _) => (0..CORE).collect(),
        };
        if *name == "panicking" {
            for k in 0..if quick { 3 } else { 8 } {
                ops.extend((CORE..OPS.len()).map(|o| o + BASE * k))
            }
        }
        let mut seen: HashMap<Vec<u64>, ()> = HashMap::new();
        let mut front: Vec<(usize, Vec<usize>)> = vec![];
        let caps = if quick { 0..=2 } else { 0..=5 };
        // no panic may keep the others from being written down
        let f = |c: usize, w: &[usize]| catch_unwind(|| f(c, w)).unwrap_or(Some(vec![99999]));
        for c in caps {
            if f(c, &[]).map_or(false, |k| seen.insert(k, ()).is_none()) {
                front.push((c, vec![]));
            }
        }
        let (mut i, mut transitions) = (0, 0);
        // an implementation whose bookkeeping never repeats has no finite state space: the first states, in breadth-first order, then
        while i < front.len() && i < if quick { 60 } else { 250 } {
            let (c, w) = front[i].clone();
            for &o in &ops {
                let mut w = w.clone();
                w.push(o);
                let w2: Vec<String> = w.iter().map(|x| x.to_string()).collect();
                let line = format!("{} {} {}\n", t, c, w2.join(","));
                // this one may be the end of the process
                trying.seek(SeekFrom::Start(0)).unwrap();
                trying.write_all(line.as_bytes()).unwrap();
                trying.set_len(line.len() as u64).unwrap();
                if let Some(k) = f(c, &w) {
                    out.write_all(line.as_bytes()).unwrap();
                    transitions += 1;
                    if seen.insert(k, ()).is_none() {
                        front.push((c, w));
                    }
                }
            }
            i += 1;
        }
        println!("circular buffer of {}\t{}\t{}\t{}\t{}", name, seen.len(), i, transitions, i == front.len());
    }
}
fn show(line: &str) -> String {
    let p: Vec<&str> = line.split(' ').collect();
    let ops: Vec<String> = p[2].split(',').filter(|s| !s.is_empty()).map(|o| o.parse().unwrap()).map(|o: usize| format!("{}{}", OPS[o % BASE], if o % BASE >= CORE { format!(" (call {})", o / BASE) } else { String::new() })).collect();
    format!("element {}, capacity {}: {}", TYPES[p[0].parse::<usize>().unwrap()].0, p[1], ops.join("; "))
}
/// Executes every history of the file; interpreted, so as little work as possible around it.
fn execute(path: &str, f: fn(usize, usize, &[usize])) {
    extern "C" {
        fn write(fd: i32, p: *const u8, n: usize) -> isize;
    }
    let say = |b: &[u8]| {
        let _ = unsafe { write(1, b.as_ptr(), b.len()) };
    };
    let text = std::fs::read(path).unwrap();
    let (mut i, mut numbers) = (0, Vec::with_capacity(16));
    while i < text.len() {
        let (mut n, mut digits, from) = (0, false, i);
        numbers.clear();
        loop {
            let c = text[i];
            i += 1;
            if c >= b'0' && c <= b'9' {
                n = n * 10 + (c - b'0') as usize;
                digits = true;
            } else {
                if digits {
                    numbers.push(n)
                }
                n = 0;
                digits = false;
                if c == b'\n' {
                    break;
                }
            }
        }
        say(b"at ");
        say(&text[from..i]);
        f(numbers[0], numbers[1], &numbers[2..]);
    }
    say(b"finished\n");
}
fn main() {
    std::panic::set_hook(Box::new(|_| FUSE.with(|f| f.set(-1))));
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "list" => list(a[2] == "quick", &a[3]),
        "show" => println!("{}", show(&a[2])),
        _ => execute(&a[2], |t, c, w| {
            // a panic is no undefined behaviour; what is expected to panic is decided elsewhere
            let _ = catch_unwind(|| (TYPES[t].1)(c, w));
        }),
    }
}
