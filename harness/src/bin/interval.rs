//! Interval and bounds: C21..C31, C34. Oracle: an interval is the set of its points on a discrete line in
//! which bounds sit at even positions and every gap between two bounds has a point of its own.
#![allow(dead_code, unused_macros, unused_imports, unused_variables, clippy::neg_cmp_op_on_partial_ord, clippy::nonminimal_bool, clippy::eq_op)]
use advanced_collections::interval::{Interval, LowerBound, UpperBound};
use mc::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};
use std::num::Wrapping;
use std::ops::*;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {{ mc::obs(); if !($c) { return Err(format!($($a)*)); } }};
}

// ---- values ---------------------------------------------------------------------------------------
/// A totally ordered value type with a strictly increasing embedding of positions 0..=20.
trait V: Ord + Clone + Debug + Hash + Send + Sync + 'static {
    const NAME: &'static str;
    fn mk(p: u32) -> Self;
    fn pos(&self) -> Option<u32> {
        (0..21).find(|p| Self::mk(*p) == *self)
    }
}
impl V for i32 {
    const NAME: &'static str = "i32";
    fn mk(p: u32) -> i32 {
        p as i32 - 6
    }
}
impl V for u8 {
    const NAME: &'static str = "u8";
    fn mk(p: u32) -> u8 {
        [0, 1, 2, 3, 50, 51, 52, 126, 127, 128, 129, 130, 200, 250, 251, 252, 253, 254, 255, 255, 255][p as usize]
    }
    fn pos(&self) -> Option<u32> {
        (0..19).find(|p| Self::mk(*p) == *self)
    }
}
impl V for i64 {
    const NAME: &'static str = "i64";
    fn mk(p: u32) -> i64 {
        [i64::MIN, i64::MIN + 1, -(1 << 40), -(1 << 32), -5, -4, -1, 0, 1, 2, 1 << 31, (1 << 31) + 1, 1 << 32, 1 << 40, i64::MAX - 6, i64::MAX - 5, i64::MAX - 4, i64::MAX - 3, i64::MAX - 2, i64::MAX - 1, i64::MAX][p as usize]
    }
}
impl V for char {
    const NAME: &'static str = "char";
    fn mk(p: u32) -> char {
        char::from_u32(0x61 + p * 0x30).unwrap()
    }
}
impl V for String {
    const NAME: &'static str = "String";
    fn mk(p: u32) -> String {
        // increasing, with lengths that are not: "", "aaaa", "b", "baaa", "c", ...
        match p {
            0 => String::new(),
            p if p % 2 == 1 => format!("{}aaa", (b'a' + p as u8 / 2) as char),
            p => format!("{}", (b'a' + p as u8 / 2) as char),
        }
    }
}
impl V for Box<i64> {
    const NAME: &'static str = "Box<i64>";
    fn mk(p: u32) -> Self {
        Box::new(p as i64 * 1000 - 5000)
    }
}
/// Reversed order, and comparisons by `cmp` only: the derived operators are not available.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Rev(i32);
impl PartialOrd for Rev {
    fn partial_cmp(&self, o: &Rev) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Rev {
    fn cmp(&self, o: &Rev) -> Ordering {
        o.0.cmp(&self.0)
    }
}
impl V for Rev {
    const NAME: &'static str = "reversed i32";
    fn mk(p: u32) -> Rev {
        Rev(100 - p as i32)
    }
}
impl V for (bool, u8, &'static str) {
    const NAME: &'static str = "(bool, u8, &str)";
    fn mk(p: u32) -> Self {
        (p >= 10, (p % 10 / 3) as u8, ["", "a", "b"][p as usize % 10 % 3])
    }
}
macro_rules! types {
    ($js:expr, $f:ident $(, $a:expr)*) => {
        $js.push($f::<i32>($($a),*));
        $js.push($f::<u8>($($a),*));
        $js.push($f::<i64>($($a),*));
        $js.push($f::<char>($($a),*));
        $js.push($f::<String>($($a),*));
        $js.push($f::<Box<i64>>($($a),*));
        $js.push($f::<Rev>($($a),*));
        $js.push($f::<(bool, u8, &'static str)>($($a),*));
    };
}

// ---- the oracle -------------------------------------------------------------------------------------
/// lower position, closed, upper position, closed
type Iv = Option<(u32, bool, u32, bool)>;
fn mask(i: Iv) -> u64 {
    match i {
        None => 0,
        Some((l, lc, u, uc)) => {
            let a = l + !lc as u32;
            let b = u + uc as u32; // exclusive
            if a >= b {
                0
            } else {
                ((1u64 << b) - 1) & !((1u64 << a) - 1)
            }
        }
    }
}
fn contiguous(m: u64) -> bool {
    m == 0 || {
        let m = m >> m.trailing_zeros();
        m & (m + 1) == 0
    }
}
/// The interval with exactly these points.
fn canon(m: u64) -> Iv {
    if m == 0 {
        return None;
    }
    assert!(contiguous(m));
    let (a, b) = (m.trailing_zeros(), 63 - m.leading_zeros());
    let (l, lc) = if a % 2 == 0 { (a, true) } else { (a - 1, false) };
    let (u, uc) = if b % 2 == 0 { (b, true) } else { (b + 1, false) };
    Some((l, lc, u, uc))
}
fn hull(m: u64) -> u64 {
    if m == 0 {
        0
    } else {
        let b = 64 - m.leading_zeros();
        ((1u64 << b) - 1) & !((1u64 << m.trailing_zeros()) - 1)
    }
}
/// All intervals with bounds at positions 2, 4, .., 2n, and the empty one.
fn ivs(n: u32) -> Vec<Iv> {
    let mut v = vec![None];
    for l in 1..=n {
        v.push(Some((2 * l, true, 2 * l, true)));
        for u in l + 1..=n {
            for c in 0..4 {
                v.push(Some((2 * l, c & 1 != 0, 2 * u, c & 2 != 0)));
            }
        }
    }
    v
}
fn show(i: Iv) -> String {
    match i {
        None => "{}".into(),
        Some((l, lc, u, uc)) => format!("{}{},{}{}", if lc { '[' } else { '(' }, l, u, if uc { ']' } else { ')' }),
    }
}
fn build<T: V>(i: Iv) -> Interval<T> {
    match i {
        None => Interval::empty(),
        Some((l, lc, u, uc)) => Interval::new(T::mk(l), lc, T::mk(u), uc),
    }
}
fn h<X: Hash>(x: &X) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}
/// Reads an interval back through every accessor.
fn read<T: V>(what: &str, x: &Interval<T>) -> Result<Option<(T, bool, T, bool)>, String> {
    let t = x.clone().into_tuple();
    let b = x.bounds();
    let c = x.clone().into_bounds();
    match &t {
        None => {
            ensure!(x.is_empty() && !x.is_single() && x.lower().is_none() && x.upper().is_none() && b.is_none() && c.is_none() && x.is_lower_closed().is_none() && x.is_upper_closed().is_none(), "{}: accessors of the empty interval disagree: {:?}", what, x);
        }
        Some((l, lc, u, uc)) => {
            let (bl, bu) = match b {
                None => return Err(format!("{}: bounds() is None for {:?}", what, x)),
                Some(b) => b,
            };
            let (cl, cu) = c.unwrap();
            let (lo, up) = (x.lower().ok_or("lower() is None")?, x.upper().ok_or("upper() is None")?);
            ensure!(bl == lo && bu == up && *lo == cl && *up == cu, "{}: bounds disagree: {:?}", what, x);
            ensure!(lo.val() == l && lo.is_closed() == *lc && up.val() == u && up.is_closed() == *uc, "{}: {:?} reports lower {:?} and upper {:?}", what, t, lo, up);
            ensure!(x.is_lower_closed() == Some(*lc) && x.is_upper_closed() == Some(*uc), "{}: closedness of {:?} reported as {:?}, {:?}", what, t, x.is_lower_closed(), x.is_upper_closed());
            ensure!(!x.is_empty() && x.is_single() == (l == u), "{}: is_empty() {}, is_single() {} for {:?}", what, x.is_empty(), x.is_single(), t);
            ensure!(cl.into_tuple() == (l.clone(), *lc) && cu.into_tuple() == (u.clone(), *uc), "{}: into_tuple of bounds of {:?}", what, t);
        }
    }
    Ok(t)
}
/// The real interval is the expected one.
fn is<T: V>(what: &str, x: &Interval<T>, w: Iv) -> Res {
    let g = read(what, x)?;
    let w2 = w.map(|(l, lc, u, uc)| (T::mk(l), lc, T::mk(u), uc));
    ensure!(g == w2, "{} is {:?}, expected {:?}", what, g, w2);
    Ok(())
}

// ---- C21 --------------------------------------------------------------------------------------------
fn constructors<T: V>(n: u32) -> Box<dyn Job> {
    cases(
        format!("constructors over all pairs of {} values of {}", n, T::NAME),
        (n * n * 4) as usize,
        move |i| {
            let i = i as u32;
            format!("values at positions {} and {}, closed {} {}", i / 4 / n, i / 4 % n, i & 1, i & 2)
        },
        move |i| {
            let i = i as u32;
            let (a, b, ac, bc) = (i / 4 / n, i / 4 % n, i & 1 != 0, i & 2 != 0);
            let (va, vb) = (T::mk(a), T::mk(b));
            let good = a < b || a == b && ac && bc;
            let want = Some((a, ac, b, bc));
            let mut forms: Vec<(&str, Box<dyn Fn() -> Interval<T>>)> = vec![];
            let (x, y) = (va.clone(), vb.clone());
            forms.push(("new", Box::new(move || Interval::new(x.clone(), ac, y.clone(), bc))));
            let (x, y) = (va.clone(), vb.clone());
            forms.push(("from_bounds", Box::new(move || Interval::from_bounds(LowerBound::new(x.clone(), ac), UpperBound::new(y.clone(), bc)))));
            let (x, y) = (va.clone(), vb.clone());
            let name = ["open", "lower_closed", "upper_closed", "closed"][i as usize & 3];
            forms.push((
                name,
                Box::new(move || {
                    let (x, y) = (x.clone(), y.clone());
                    match name {
                        "open" => Interval::open(x, y),
                        "closed" => Interval::closed(x, y),
                        "lower_closed" => Interval::lower_closed(x, y),
                        _ => Interval::upper_closed(x, y),
                    }
                }),
            ));
            if a == b && ac && bc {
                let x = va.clone();
                forms.push(("single", Box::new(move || Interval::single(x.clone()))));
            }
            for (name, f) in forms {
                match expect_panic(&f) {
                    Ok(()) => ensure!(!good, "{} panics", name),
                    Err(x) => {
                        ensure!(good, "{} does not panic but gives {:?}", name, x);
                        is(name, &x, want)?;
                        let c = x.clone();
                        ensure!(c == x && h(&c) == h(&x), "clone differs");
                        let (l, u) = x.clone().into_bounds().unwrap();
                        ensure!(l == LowerBound::new(va.clone(), ac) && u == UpperBound::new(vb.clone(), bc), "{}: into_bounds gives {:?}, {:?}", name, l, u);
                        is("from_bounds(into_bounds)", &Interval::from_bounds(l, u), want)?;
                        let (l, lc, u, uc) = x.into_tuple().unwrap();
                        is("new(into_tuple)", &Interval::new(l, lc, u, uc), want)?;
                    }
                }
            }
            let (l, u) = (LowerBound::new(va.clone(), ac), UpperBound::new(vb.clone(), bc));
            ensure!(*l.val() == va && l.is_closed() == ac && l.into_tuple() == (va, ac), "accessors of a lower bound");
            ensure!(*u.val() == vb && u.is_closed() == bc && u.into_tuple() == (vb, bc), "accessors of an upper bound");
            is("empty", &Interval::<T>::empty(), None)
        },
    )
}

/// A value of an order in which different values can be equal: which one is given is visible in `1`.
#[derive(Clone, Copy, Debug)]
struct Tag(u32, u8);
impl PartialEq for Tag {
    fn eq(&self, o: &Tag) -> bool {
        self.0 == o.0
    }
}
impl Eq for Tag {}
impl PartialOrd for Tag {
    fn partial_cmp(&self, o: &Tag) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tag {
    fn cmp(&self, o: &Tag) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
/// The values which come out are the very ones which went in, each at its own end, also where the two are equal
/// in their order.
fn identities(n: u32) -> Box<dyn Job> {
    cases(
        format!("which values come out, over all pairs of {} values which can be equal and different", n),
        (n * n * 4) as usize,
        move |i| format!("values {} and {}, closed {} {}", i as u32 / 4 / n, i as u32 / 4 % n, i & 1, i & 2),
        move |i| {
            let i = i as u32;
            let (a, b, ac, bc) = (i / 4 / n, i / 4 % n, i & 1 != 0, i & 2 != 0);
            if !(a < b || a == b && ac && bc) {
                return Ok(());
            }
            let (x, y) = (Tag(a, 1), Tag(b, 2));
            let id = |t: Option<(Tag, bool, Tag, bool)>| t.map(|(l, lc, u, uc)| (l.0, l.1, lc, u.0, u.1, uc));
            let all = |what: &str, v: &Interval<Tag>, want: (u32, u8, bool, u32, u8, bool)| -> Res {
                let g = id(v.lower().and_then(|l| v.upper().map(|u| (*l.val(), l.is_closed(), *u.val(), u.is_closed()))));
                ensure!(g == Some(want), "{}: lower and upper are {:?}, expected {:?}", what, g, want);
                let g = id(v.bounds().map(|(l, u)| (*l.val(), l.is_closed(), *u.val(), u.is_closed())));
                ensure!(g == Some(want), "{}: bounds are {:?}, expected {:?}", what, g, want);
                let g = id(v.clone().into_tuple());
                ensure!(g == Some(want), "{}: into_tuple is {:?}, expected {:?}", what, g, want);
                let g = id(v.clone().into_bounds().map(|(l, u)| {
                    let ((l, lc), (u, uc)) = (l.into_tuple(), u.into_tuple());
                    (l, lc, u, uc)
                }));
                ensure!(g == Some(want), "{}: into_bounds is {:?}, expected {:?}", what, g, want);
                Ok(())
            };
            let want = (a, 1, ac, b, 2, bc);
            all("new", &Interval::new(x, ac, y, bc), want)?;
            all("from_bounds", &Interval::from_bounds(LowerBound::new(x, ac), UpperBound::new(y, bc)), want)?;
            let (name, v) = match (ac, bc) {
                (false, false) => ("open", Interval::open(x, y)),
                (true, false) => ("lower_closed", Interval::lower_closed(x, y)),
                (false, true) => ("upper_closed", Interval::upper_closed(x, y)),
                (true, true) => ("closed", Interval::closed(x, y)),
            };
            all(name, &v, want)?;
            if a == b {
                all("single", &Interval::single(x), (a, 1, true, a, 1, true))?;
            }
            Ok(())
        },
    )
}

// ---- pairs ------------------------------------------------------------------------------------------
fn pairs<T: V>(name: &str, n: u32, f: fn(&Interval<T>, Iv, &Interval<T>, Iv, u32) -> Res) -> Box<dyn Job> {
    let v = ivs(n);
    let v2 = v.clone();
    let k = v.len();
    cases(
        format!("{}: all pairs of intervals over {} values of {}", name, n, T::NAME),
        k * k,
        move |i| format!("{} and {} (positions)", show(v2[i / k]), show(v2[i % k])),
        move |i| {
            let (a, b) = (v[i / k], v[i % k]);
            f(&build(a), a, &build(b), b, n)
        },
    )
}
fn membership<T: V>(n: u32) -> Box<dyn Job> {
    let v = ivs(n);
    let v2 = v.clone();
    cases(
        format!("membership: all intervals and points over {} values of {}", n, T::NAME),
        v.len(),
        move |i| show(v2[i]),
        move |i| {
            let a: Interval<T> = build(v[i]);
            let m = mask(v[i]);
            for p in 0..=2 * n + 2 {
                let w = m >> p & 1 != 0;
                ensure!(a.contains_val(&T::mk(p)) == w, "contains_val(position {}) is {}", p, !w);
                let s = Interval::single(T::mk(p));
                ensure!(a.contains_interval(&s) == w, "contains_interval(single at {}) is {}", p, !w);
                // a gap has more points than the one at its position
                let w = m == 0 || m == 1 << p && p % 2 == 0;
                ensure!(s.contains_interval(&a) == w, "single at {} contains it: {}", p, !w);
            }
            ensure!(a.is_empty() == (m == 0), "is_empty() is {}", a.is_empty());
            ensure!(a.is_single() == (m.count_ones() == 1 && m.trailing_zeros() % 2 == 0), "is_single() is {}", a.is_single());
            Ok(())
        },
    )
}
fn containment<T: V>(n: u32) -> Box<dyn Job> {
    pairs::<T>("containment", n, |a, x, b, y, n| {
        let (m, k) = (mask(x), mask(y));
        let w = k & !m == 0;
        ensure!(a.contains_interval(b) == w, "contains_interval is {}", !w);
        if w {
            for p in 0..=2 * n + 2 {
                ensure!(!b.contains_val(&T::mk(p)) || a.contains_val(&T::mk(p)), "contained interval has the extra point at {}", p);
            }
        }
        Ok(())
    })
}
fn intersection<T: V>(n: u32) -> Box<dyn Job> {
    pairs::<T>("intersection", n, |a, x, b, y, _| {
        let m = mask(x) & mask(y);
        let w = canon(m);
        ensure!(a.intersects(b) == (m != 0) && b.intersects(a) == (m != 0), "intersects is {} and {} for swapped operands", a.intersects(b), b.intersects(a));
        is("into_intersection", &a.clone().into_intersection(b.clone()), w)?;
        is("into_intersection with swapped operands", &b.clone().into_intersection(a.clone()), w)?;
        let mut c = a.clone();
        c.intersection(b.clone());
        is("intersection", &c, w)?;
        let mut c = b.clone();
        c.intersection(a.clone());
        is("intersection with swapped operands", &c, w)?;
        is("left operand", a, x)?;
        is("right operand", b, y)
    })
}
fn merging<T: V>(n: u32) -> Box<dyn Job> {
    pairs::<T>("merging", n, |a, x, b, y, _| {
        let m = mask(x) | mask(y);
        let ok = contiguous(m) || x.is_none() || y.is_none();
        for (a, x, b, y, s) in [(a, x, b, y, ""), (b, y, a, x, " with swapped operands")] {
            ensure!(a.can_be_merged(b) == ok, "can_be_merged{} is {}", s, !ok);
            match a.clone().into_merged(b.clone()) {
                Ok(r) => {
                    ensure!(ok, "into_merged{} gives {:?}", s, r);
                    is(&format!("into_merged{}", s), &r, canon(m))?;
                }
                Err((p, q)) => {
                    ensure!(!ok, "into_merged{} fails", s);
                    is(&format!("first returned by into_merged{}", s), &p, x)?;
                    is(&format!("second returned by into_merged{}", s), &q, y)?;
                }
            }
            let mut c = a.clone();
            match c.merge(b.clone()) {
                Ok(()) => {
                    ensure!(ok, "merge{} gives {:?}", s, c);
                    is(&format!("merge{}", s), &c, canon(m))?;
                }
                Err(q) => {
                    ensure!(!ok, "merge{} fails", s);
                    is(&format!("target of failed merge{}", s), &c, x)?;
                    is(&format!("interval returned by merge{}", s), &q, y)?;
                }
            }
        }
        Ok(())
    })
}
fn spanning<T: V>(n: u32) -> Box<dyn Job> {
    pairs::<T>("span", n, |a, x, b, y, _| {
        let w = canon(hull(mask(x) | mask(y)));
        for (a, b, s) in [(a, b, ""), (b, a, " with swapped operands")] {
            is(&format!("into_span{}", s), &a.clone().into_span(b.clone()), w)?;
            let mut c = a.clone();
            c.span(b.clone());
            is(&format!("span{}", s), &c, w)?;
            ensure!(c.contains_interval(a) && c.contains_interval(b), "span does not contain its operands");
        }
        Ok(())
    })
}
/// Set operations on three intervals: the laws that follow from set semantics.
fn triples<T: V>(name: &'static str, n: u32) -> Box<dyn Job> {
    let v = ivs(n);
    let v2 = v.clone();
    let k = v.len();
    cases(
        format!("{}: all triples of intervals over {} values of {}", name, n, T::NAME),
        k * k * k,
        move |i| format!("{}, {} and {} (positions)", show(v2[i / k / k]), show(v2[i / k % k]), show(v2[i % k])),
        move |i| {
            let (x, y, z) = (v[i / k / k], v[i / k % k], v[i % k]);
            let (a, b, c): (Interval<T>, Interval<T>, Interval<T>) = (build(x), build(y), build(z));
            match name {
                "intersection" => {
                    let w = canon(mask(x) & mask(y) & mask(z));
                    let mut d = a.clone();
                    d.intersection(b.clone());
                    d.intersection(c.clone());
                    is("intersection of three", &d, w)?;
                    is("into_intersection of three", &a.into_intersection(b.into_intersection(c)), w)
                }
                "merging" => {
                    // an accumulator that is merged where possible
                    let mut d = a.clone();
                    let mut m = mask(x);
                    for (o, y) in [(b, y), (c, z)] {
                        let k = mask(y);
                        let ok = contiguous(m | k) || m == 0 || k == 0;
                        ensure!(d.merge(o.clone()).is_ok() == ok, "merge after merge");
                        if ok {
                            m |= k
                        }
                        is("merged", &d, canon(m))?;
                    }
                    Ok(())
                }
                _ => {
                    let w = canon(hull(mask(x) | mask(y) | mask(z)));
                    let mut d = a.clone();
                    d.span(b.clone());
                    d.span(c.clone());
                    is("span of three", &d, w)?;
                    is("into_span of three", &a.into_span(b.into_span(c)), w)
                }
            }
        },
    )
}

// ---- C26 --------------------------------------------------------------------------------------------
fn all_pts(m: u64, k: u64, f: impl Fn(u32, u32) -> bool) -> bool {
    (0..64).filter(|p| m >> p & 1 != 0).all(|p| (0..64).filter(|q| k >> q & 1 != 0).all(|q| f(p, q)))
}
/// Points of gaps stand for several points.
fn le_pts(p: u32, q: u32) -> bool {
    p < q || p == q && p % 2 == 0
}
fn comparing<T: V>(n: u32) -> Box<dyn Job> {
    pairs::<T>("comparison", n, |a, x, b, y, _| {
        let (m, k) = (mask(x), mask(y));
        let ne = m != 0 && k != 0;
        let (lt, gt) = (ne && all_pts(m, k, |p, q| p < q), ne && all_pts(m, k, |p, q| p > q));
        let (le, ge) = (ne && all_pts(m, k, le_pts), ne && all_pts(m, k, |p, q| le_pts(q, p)));
        let eq = m == k;
        ensure!((a < b) == lt, "< is {}", !lt);
        ensure!((a > b) == gt, "> is {}", !gt);
        ensure!((a <= b) == le, "<= is {}", !le);
        ensure!((a >= b) == ge, ">= is {}", !ge);
        ensure!((a == b) == eq && (a != b) == !eq, "== is {}, != is {}", a == b, a != b);
        let w = if lt {
            Some(Ordering::Less)
        } else if gt {
            Some(Ordering::Greater)
        } else if eq {
            Some(Ordering::Equal)
        } else {
            None
        };
        ensure!(a.partial_cmp(b) == w, "partial_cmp is {:?}, expected {:?}", a.partial_cmp(b), w);
        ensure!(!eq || h(a) == h(b), "equal intervals hash differently");
        Ok(())
    })
}
fn comparing_values<T: V>(n: u32) -> Box<dyn Job> {
    let v = ivs(n);
    let v2 = v.clone();
    let k = 2 * n as usize + 3;
    cases(
        format!("comparison: all intervals with all points over {} values of {}", n, T::NAME),
        v.len() * k,
        move |i| format!("{} and the point at {}", show(v2[i / k]), i % k),
        move |i| {
            let (a, p): (Interval<T>, T) = (build(v[i / k]), T::mk((i % k) as u32));
            let (m, k) = (mask(v[i / k]), 1u64 << (i % k));
            let ne = m != 0;
            let q = (i % (2 * n as usize + 3)) as u32;
            let lt = ne && all_pts(m, k, |p, q| p < q);
            let gt = ne && all_pts(m, k, |p, q| p > q);
            // the value is one point wherever it is
            let le = ne && (0..64).filter(|p| m >> p & 1 != 0).all(|p| p <= q);
            let ge = ne && (0..64).filter(|p| m >> p & 1 != 0).all(|p| p >= q);
            let amb = ne && q % 2 == 1 && (m >> q & 1 != 0);
            let eq = m == k && q % 2 == 0;
            ensure!((a < p) == lt, "< is {}", !lt);
            ensure!((a > p) == gt, "> is {}", !gt);
            ensure!((a <= p) == (le && !amb), "<= is {}", a <= p);
            ensure!((a >= p) == (ge && !amb), ">= is {}", a >= p);
            ensure!((a == p) == eq && (a != p) == !eq, "== is {}, != is {}", a == p, a != p);
            let w = if lt {
                Some(Ordering::Less)
            } else if gt {
                Some(Ordering::Greater)
            } else if eq {
                Some(Ordering::Equal)
            } else {
                None
            };
            ensure!(a.partial_cmp(&p) == w, "partial_cmp is {:?}, expected {:?}", a.partial_cmp(&p), w);
            Ok(())
        },
    )
}

// ---- C27 --------------------------------------------------------------------------------------------
fn flags<A: PartialOrd<B>, B>(a: &A, b: &B) -> (bool, bool, bool, bool, bool, bool, Option<Ordering>) {
    (a < b, a <= b, a > b, a >= b, a == b, a != b, a.partial_cmp(b))
}
fn of(o: Ordering) -> (bool, bool, bool, bool, bool, bool, Option<Ordering>) {
    use Ordering::*;
    (o == Less, o != Greater, o == Greater, o != Less, o == Equal, o != Equal, Some(o))
}
fn bounds_order<T: V>(n: u32) -> Box<dyn Job> {
    let k = (2 * n) as usize;
    cases(
        format!("bounds: all pairs of bounds over {} values of {}", n, T::NAME),
        k * k,
        move |i| format!("bounds at {} (closed: {}) and {} (closed: {})", i / k / 2 * 2, i / k % 2, i % k / 2 * 2, i % k % 2),
        move |i| {
            let ((a, ac), (b, bc)) = (((i / k / 2) as u32 * 2, i / k % 2 != 0), ((i % k / 2) as u32 * 2, i % k % 2 != 0));
            let (va, vb) = (T::mk(a), T::mk(b));
            // positions at which an interval starts or ends
            let lpos = |p: u32, c: bool| 4 * p + if c { 0 } else { 1 };
            let upos = |p: u32, c: bool| 4 * p + if c { 0 } else { 0 } - if c { 0 } else { 1 };
            {
                let (x, y) = (LowerBound::new(va.clone(), ac), LowerBound::new(vb.clone(), bc));
                let o = lpos(a, ac).cmp(&lpos(b, bc));
                ensure!(flags(&x, &y) == of(o), "lower bounds: (<, <=, >, >=, ==, !=, partial_cmp) is {:?}, expected {:?}", flags(&x, &y), of(o));
                ensure!(x.cmp(&y) == o, "lower bounds: cmp is {:?}, expected {:?}", x.cmp(&y), o);
                ensure!(o != Ordering::Equal || h(&x) == h(&y), "equal lower bounds hash differently");
                let (mx, mn) = (x.clone().max(y.clone()), x.clone().min(y.clone()));
                ensure!((mx == if o == Ordering::Greater { x.clone() } else { y.clone() }) && (mn == if o == Ordering::Greater { y } else { x }), "max or min of lower bounds");
            }
            {
                let up = |p: u32, c: bool| 4 * (p as i64) - if c { 0 } else { 1 };
                let (x, y) = (UpperBound::new(va.clone(), ac), UpperBound::new(vb.clone(), bc));
                let o = up(a, ac).cmp(&up(b, bc));
                ensure!(flags(&x, &y) == of(o), "upper bounds: (<, <=, >, >=, ==, !=, partial_cmp) is {:?}, expected {:?}", flags(&x, &y), of(o));
                ensure!(x.cmp(&y) == o, "upper bounds: cmp is {:?}, expected {:?}", x.cmp(&y), o);
                ensure!(o != Ordering::Equal || h(&x) == h(&y), "equal upper bounds hash differently");
                let (mx, mn) = (x.clone().max(y.clone()), x.clone().min(y.clone()));
                ensure!((mx == if o == Ordering::Greater { x.clone() } else { y.clone() }) && (mn == if o == Ordering::Greater { y } else { x }), "max or min of upper bounds");
            }
            // lower bound `a` against upper bound `b`
            let (l, u) = (LowerBound::new(va.clone(), ac), UpperBound::new(vb.clone(), bc));
            for (what, g, o, disjoint) in [("lower against upper bound", flags(&l, &u), a.cmp(&b), Ordering::Greater), ("upper against lower bound", flags(&u, &l), b.cmp(&a), Ordering::Less)] {
                ensure!(!g.4 && g.5, "{}: == is {}, != is {}", what, g.4, g.5);
                ensure!(g.1 == (o != Ordering::Greater) && g.3 == (o != Ordering::Less), "{}: <= is {}, >= is {}", what, g.1, g.3);
                let below = g.0;
                let above = g.2;
                if o != Ordering::Equal {
                    ensure!((below, above, g.6) == (o == Ordering::Less, o == Ordering::Greater, Some(o)), "{}: (<, >, partial_cmp) is {:?}", what, (below, above, g.6));
                } else if ac && bc {
                    ensure!((below, above, g.6) == (false, false, None), "{}: (<, >, partial_cmp) is {:?} though they share a point", what, (below, above, g.6));
                } else {
                    // no point satisfies both
                    let (right, wrong) = if disjoint == Ordering::Less { (below, above) } else { (above, below) };
                    ensure!(right, "{}: must be {:?} because no point satisfies both", what, disjoint);
                    if wrong {
                        // both less and greater: reported, the driver decides
                        finding(format!("both < and > hold: {}, equal values, lower closed {}, upper closed {}", what, ac, bc));
                    } else {
                        ensure!(g.6 == Some(disjoint), "{}: partial_cmp is {:?}", what, g.6);
                    }
                }
            }
            Ok(())
        },
    )
}
fn bounds_values<T: V>(n: u32) -> Box<dyn Job> {
    let k = (2 * n) as usize;
    let pts = 2 * n as usize + 1;
    cases(
        format!("bounds: all bounds and values over {} values of {}", n, T::NAME),
        k * pts,
        move |i| format!("bound at {} (closed: {}) and the value at {}", i / pts / 2 * 2, i / pts % 2, i % pts),
        move |i| {
            let (a, ac, p) = ((i / pts / 2 * 2) as i64, i / pts % 2 != 0, (i % pts) as i64);
            let (l, u, v) = (LowerBound::new(T::mk(a as u32), ac), UpperBound::new(T::mk(a as u32), ac), T::mk(p as u32));
            let o = (4 * a + if ac { 0 } else { 1 }).cmp(&(4 * p));
            ensure!(flags(&l, &v) == of(o), "lower bound: (<, <=, >, >=, ==, !=, partial_cmp) is {:?}, expected {:?}", flags(&l, &v), of(o));
            let o = (4 * a - if ac { 0 } else { 1 }).cmp(&(4 * p));
            ensure!(flags(&u, &v) == of(o), "upper bound: (<, <=, >, >=, ==, !=, partial_cmp) is {:?}, expected {:?}", flags(&u, &v), of(o));
            Ok(())
        },
    )
}
fn bounds_total<T: V>(n: u32) -> Box<dyn Job> {
    let k = (2 * n) as usize;
    cases(
        format!("bounds: all triples of bounds of one kind over {} values of {}", n, T::NAME),
        k * k * k,
        move |i| format!("(value, closed): {:?}", [i / k / k, i / k % k, i % k].map(|x| (x / 2 * 2, x % 2))),
        move |i| {
            let [a, b, c] = [i / k / k, i / k % k, i % k].map(|x| (T::mk((x / 2 * 2) as u32), x % 2 != 0));
            let [x, y, z] = [&a, &b, &c].map(|t| LowerBound::new(t.0.clone(), t.1));
            ensure!(!(x <= y && y <= z) || x <= z, "<= of lower bounds is not transitive");
            ensure!(!(x < y && y <= z) || x < z, "< of lower bounds is not transitive");
            if y <= z {
                let w = if x < y { y.clone() } else if z < x { z.clone() } else { x.clone() };
                let g = x.clamp(y, z);
                ensure!(g == w, "clamp of lower bounds is {:?}, expected {:?}", g, w);
            }
            let [x, y, z] = [&a, &b, &c].map(|t| UpperBound::new(t.0.clone(), t.1));
            ensure!(!(x <= y && y <= z) || x <= z, "<= of upper bounds is not transitive");
            ensure!(!(x < y && y <= z) || x < z, "< of upper bounds is not transitive");
            if y <= z {
                let w = if x < y { y.clone() } else if z < x { z.clone() } else { x.clone() };
                let g = x.clamp(y, z);
                ensure!(g == w, "clamp of upper bounds is {:?}, expected {:?}", g, w);
            }
            Ok(())
        },
    )
}

// ---- arithmetic ---------------------------------------------------------------------------------------
/// Exact rational numbers.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Q(i64, i64);
fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 {
        a.abs()
    } else {
        gcd(b, a % b)
    }
}
fn q(a: i64, b: i64) -> Q {
    let g = gcd(a, b);
    let s = if b < 0 { -1 } else { 1 };
    Q(s * a / g, s * b / g)
}
impl Debug for Q {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if self.1 == 1 {
            write!(f, "{}", self.0)
        } else {
            write!(f, "{}/{}", self.0, self.1)
        }
    }
}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Q {
    fn cmp(&self, o: &Q) -> Ordering {
        (self.0 * o.1).cmp(&(o.0 * self.1))
    }
}
macro_rules! qop {
    ($t:ident $f:ident $ta:ident $fa:ident, $a:ident $b:ident $e:expr) => {
        impl $t for Q {
            type Output = Q;
            fn $f(self, o: Q) -> Q {
                let ($a, $b) = (self, o);
                $e
            }
        }
        impl $ta for Q {
            fn $fa(&mut self, o: Q) {
                let ($a, $b) = (*self, o);
                *self = $e;
            }
        }
    };
}
qop!(Add add AddAssign add_assign, a b q(a.0 * b.1 + b.0 * a.1, a.1 * b.1));
qop!(Sub sub SubAssign sub_assign, a b q(a.0 * b.1 - b.0 * a.1, a.1 * b.1));
qop!(Mul mul MulAssign mul_assign, a b q(a.0 * b.0, a.1 * b.1));
qop!(Div div DivAssign div_assign, a b q(a.0 * b.1, a.1 * b.0));
impl Neg for Q {
    type Output = Q;
    fn neg(self) -> Q {
        q(-self.0, self.1)
    }
}
/// A value whose arithmetic takes another type, which is not interchangeable with it.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Time(i64);
#[derive(Clone, Debug, PartialEq)]
struct Span(i64, Box<u8>);
macro_rules! top {
    ($t:ident $f:ident $ta:ident $fa:ident $op:tt) => {
        impl $t<Span> for Time {
            type Output = Time;
            fn $f(self, o: Span) -> Time {
                Time(self.0 $op o.0)
            }
        }
        impl $ta<Span> for Time {
            fn $fa(&mut self, o: Span) {
                self.0 = self.0 $op o.0
            }
        }
    };
}
top!(Add add AddAssign add_assign +);
top!(Sub sub SubAssign sub_assign -);
top!(Mul mul MulAssign mul_assign *);
top!(Div div DivAssign div_assign /);
/// Non-commutative, non-Copy arithmetic on owned values.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Word(String);
macro_rules! wop {
    ($t:ident $f:ident $ta:ident $fa:ident, $a:ident $b:ident $e:expr) => {
        impl $t for Word {
            type Output = Word;
            fn $f(self, o: Word) -> Word {
                let ($a, $b) = (&self.0, &o.0);
                Word($e)
            }
        }
        impl $ta for Word {
            fn $fa(&mut self, o: Word) {
                let r = {
                    let ($a, $b) = (&self.0, &o.0);
                    $e
                };
                self.0 = r
            }
        }
    };
}
wop!(Add add AddAssign add_assign, a b format!("{}{}", a, b));
wop!(Sub sub SubAssign sub_assign, a b a.replace(b.as_str(), ""));
wop!(Mul mul MulAssign mul_assign, a b format!("{}{}", b, a));
wop!(Div div DivAssign div_assign, a b a.split(b.as_str()).next().unwrap().to_string());
impl Neg for Word {
    type Output = Word;
    fn neg(self) -> Word {
        Word(self.0.chars().rev().collect())
    }
}

type Tup<T> = (T, bool, T, bool);
fn fixed<T: Ord>(t: Tup<T>) -> Option<Tup<T>> {
    let (l, lc, u, uc) = t;
    match l.cmp(&u) {
        Ordering::Less => Some((l, lc, u, uc)),
        Ordering::Greater => Some((u, uc, l, lc)),
        Ordering::Equal if lc && uc => Some((l, lc, u, uc)),
        Ordering::Equal => None,
    }
}
fn same<T: Ord + Clone + Debug + Hash>(what: &str, x: Interval<T>, w: &Option<Tup<T>>) -> Res {
    let single = x.is_single();
    let empty = x.is_empty();
    let closed = (x.is_lower_closed(), x.is_upper_closed());
    let fresh = match w.clone() {
        None => Interval::empty(),
        Some((l, lc, u, uc)) => Interval::new(l, lc, u, uc),
    };
    ensure!(x == fresh && h(&x) == h(&fresh), "{}: {:?} is not equal to the same interval built directly, {:?}", what, x, fresh);
    let t = x.into_tuple();
    ensure!(t == *w, "{} is {:?}, expected {:?}", what, t, w);
    ensure!(empty == w.is_none() && single == w.as_ref().map_or(false, |w| w.0 == w.2) && closed == (w.as_ref().map(|w| w.1), w.as_ref().map(|w| w.3)), "{}: accessors disagree with {:?}", what, t);
    Ok(())
}
/// All tuples over values: the empty interval and all well-formed ones.
fn tuples<T: Ord + Clone>(vals: &[T]) -> Vec<Option<Tup<T>>> {
    let mut v = vec![None];
    for l in vals {
        for u in vals {
            for c in 0..4 {
                if l < u || l == u && c == 3 {
                    v.push(Some((l.clone(), c & 1 != 0, u.clone(), c & 2 != 0)));
                }
            }
        }
    }
    v
}
fn iv<T: Ord + Clone>(t: &Option<Tup<T>>) -> Interval<T> {
    match t.clone() {
        None => Interval::empty(),
        Some((l, lc, u, uc)) => Interval::new(l, lc, u, uc),
    }
}
const OPS: [&str; 5] = ["+", "-", "*", "/", "neg"];
/// Interval arithmetic by operators; `ok` filters (operation, left value, scalar).
fn arith<T, U>(name: &str, vals: Vec<T>, scal: Vec<U>, ops: Vec<usize>, ok: fn(usize, &T, &U) -> bool) -> Box<dyn Job>
where
    T: Ord + Clone + Debug + Hash + Send + Sync + 'static + Add<U, Output = T> + Sub<U, Output = T> + Mul<U, Output = T> + Div<U, Output = T>,
    U: Clone + Debug + Send + Sync + 'static,
{
    let t = tuples(&vals);
    let (t2, s2, o2) = (t.clone(), scal.clone(), ops.clone());
    let (ns, no) = (scal.len(), ops.len());
    cases(
        format!("interval arithmetic by operators, {}", name),
        t.len() * ns * no,
        move |i| format!("{:?} {} {:?}", t2[i / ns / no], OPS[o2[i % no]], s2[i / no % ns]),
        move |i| {
            let (t, s, o) = (&t[i / ns / no], &scal[i / no % ns], ops[i % no]);
            if let Some(t) = t {
                if !ok(o, &t.0, s) || !ok(o, &t.2, s) {
                    return Ok(());
                }
            }
            let f = |x: T| match o {
                0 => x + s.clone(),
                1 => x - s.clone(),
                2 => x * s.clone(),
                _ => x / s.clone(),
            };
            let want = t.clone().and_then(|(l, lc, u, uc)| fixed((f(l), lc, f(u), uc)));
            let x = iv(t);
            let r = match o {
                0 => x + s.clone(),
                1 => x - s.clone(),
                2 => x * s.clone(),
                _ => x / s.clone(),
            };
            same("result", r, &want)?;
            // bounds
            if let Some((l, lc, u, uc)) = t.clone() {
                let (a, b) = (LowerBound::new(l.clone(), lc), UpperBound::new(u.clone(), uc));
                let (a, b) = match o {
                    0 => (a + s.clone(), b + s.clone()),
                    1 => (a - s.clone(), b - s.clone()),
                    2 => (a * s.clone(), b * s.clone()),
                    _ => (a / s.clone(), b / s.clone()),
                };
                ensure!(a.into_tuple() == (f(l), lc), "lower bound");
                ensure!(b.into_tuple() == (f(u), uc), "upper bound");
            }
            Ok(())
        },
    )
}
/// Assignment forms of intervals (scalar of the same type), and negation.
fn arith_assign<T>(name: &str, vals: Vec<T>, scal: Vec<T>, ops: Vec<usize>, ok: fn(usize, &T, &T) -> bool) -> Box<dyn Job>
where
    T: Ord + Clone + Debug + Hash + Send + Sync + 'static + Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Div<Output = T> + AddAssign + SubAssign + MulAssign + DivAssign,
{
    let t = tuples(&vals);
    let (t2, s2, o2) = (t.clone(), scal.clone(), ops.clone());
    let (ns, no) = (scal.len(), ops.len());
    cases(
        format!("interval arithmetic by assignment, {}", name),
        t.len() * ns * no,
        move |i| format!("{:?} {}= {:?}", t2[i / ns / no], OPS[o2[i % no]], s2[i / no % ns]),
        move |i| {
            let (t, s, o) = (&t[i / ns / no], &scal[i / no % ns], ops[i % no]);
            if let Some(t) = t {
                if !ok(o, &t.0, s) || !ok(o, &t.2, s) {
                    return Ok(());
                }
            }
            let f = |x: T| match o {
                0 => x + s.clone(),
                1 => x - s.clone(),
                2 => x * s.clone(),
                _ => x / s.clone(),
            };
            let want = t.clone().and_then(|(l, lc, u, uc)| fixed((f(l), lc, f(u), uc)));
            let mut x = iv(t);
            match o {
                0 => x += s.clone(),
                1 => x -= s.clone(),
                2 => x *= s.clone(),
                _ => x /= s.clone(),
            };
            same("result", x, &want)
        },
    )
}
fn negation<T>(name: &str, vals: Vec<T>) -> Box<dyn Job>
where
    T: Ord + Clone + Debug + Hash + Send + Sync + 'static + Neg<Output = T>,
{
    let t = tuples(&vals);
    let t2 = t.clone();
    cases(
        format!("negation, {}", name),
        t.len(),
        move |i| format!("-{:?}", t2[i]),
        move |i| {
            // the value of a negated bound decides where it goes
            let want = t[i].clone().and_then(|(l, lc, u, uc)| fixed((-l, lc, -u, uc)));
            same("result", -iv(&t[i]), &want)
        },
    )
}
/// Exact operations: membership is mapped point by point.
fn exact_points(vals: Vec<Q>, scal: Vec<Q>, grid: Vec<Q>) -> Box<dyn Job> {
    let t = tuples(&vals);
    let (t2, s2) = (t.clone(), scal.clone());
    let ns = scal.len();
    cases(
        "exact arithmetic: membership of every image, both forms",
        t.len() * ns * 5,
        move |i| format!("{:?} {} {:?}", t2[i / 5 / ns], OPS[i % 5], s2[i / 5 % ns]),
        move |i| {
            let (t, s, o) = (&t[i / 5 / ns], scal[i / 5 % ns], i % 5);
            if s == q(0, 1) && (o == 2 || o == 3) {
                return Ok(()); // not invertible
            }
            let x = iv(t);
            let f = |x: Q| match o {
                0 => x + s,
                1 => x - s,
                2 => x * s,
                3 => x / s,
                _ => -x,
            };
            let mut y = x;
            let z = match o {
                0 => {
                    y += s;
                    x + s
                }
                1 => {
                    y -= s;
                    x - s
                }
                2 => {
                    y *= s;
                    x * s
                }
                3 => {
                    y /= s;
                    x / s
                }
                _ => {
                    y = -x;
                    -x
                }
            };
            ensure!(y == z, "the forms give {:?} and {:?}", z, y);
            for v in &grid {
                let w = x.contains_val(v);
                ensure!(z.contains_val(&f(*v)) == w, "{:?} is {}in the interval, its image {:?} is not {}in the result {:?}", v, if w { "" } else { "not " }, f(*v), if w { "" } else { "not " }, z);
            }
            Ok(())
        },
    )
}
/// Bound arithmetic, all forms.
fn bound_arith<T, U>(name: &str, vals: Vec<T>, scal: Vec<U>, ok: fn(usize, &T, &U) -> bool) -> Box<dyn Job>
where
    T: Ord + Clone + Debug + Hash + Send + Sync + 'static + Add<U, Output = T> + Sub<U, Output = T> + Mul<U, Output = T> + Div<U, Output = T> + AddAssign<U> + SubAssign<U> + MulAssign<U> + DivAssign<U>,
    U: Clone + Debug + Send + Sync + 'static,
{
    let (nv, ns) = (vals.len(), scal.len());
    let (v2, s2) = (vals.clone(), scal.clone());
    cases(
        format!("bound arithmetic, {}", name),
        nv * ns * 4,
        move |i| format!("{:?} {} {:?}", v2[i / 4 / ns], OPS[i % 4], s2[i / 4 % ns]),
        move |i| {
            let (v, s, o) = (&vals[i / 4 / ns], &scal[i / 4 % ns], i % 4);
            if !ok(o, v, s) {
                return Ok(());
            }
            let w = {
                let (v, s) = (v.clone(), s.clone());
                match o {
                    0 => v + s,
                    1 => v - s,
                    2 => v * s,
                    _ => v / s,
                }
            };
            for c in [false, true] {
                let (l, u) = (LowerBound::new(v.clone(), c), UpperBound::new(v.clone(), c));
                let (mut la, mut ua) = (l.clone(), u.clone());
                let (lr, ur) = match o {
                    0 => {
                        la += s.clone();
                        ua += s.clone();
                        (l + s.clone(), u + s.clone())
                    }
                    1 => {
                        la -= s.clone();
                        ua -= s.clone();
                        (l - s.clone(), u - s.clone())
                    }
                    2 => {
                        la *= s.clone();
                        ua *= s.clone();
                        (l * s.clone(), u * s.clone())
                    }
                    _ => {
                        la /= s.clone();
                        ua /= s.clone();
                        (l / s.clone(), u / s.clone())
                    }
                };
                for (what, x) in [("lower bound by operator", lr), ("lower bound by assignment", la)] {
                    ensure!(*x.val() == w && x.is_closed() == c && x == LowerBound::new(w.clone(), c), "{}: {:?}, expected {:?} closed {}", what, x, w, c);
                }
                for (what, x) in [("upper bound by operator", ur), ("upper bound by assignment", ua)] {
                    ensure!(*x.val() == w && x.is_closed() == c && x == UpperBound::new(w.clone(), c), "{}: {:?}, expected {:?} closed {}", what, x, w, c);
                }
            }
            Ok(())
        },
    )
}
fn separation<T: V>(n: u32) -> Box<dyn Job> {
    let k = (2 * n) as usize;
    cases(
        format!("separation: all pairs of bounds over {} values of {}", n, T::NAME),
        k * k,
        move |i| format!("lower bound at {} (closed: {}), upper bound at {} (closed: {})", i / k / 2 * 2, i / k % 2, i % k / 2 * 2, i % k % 2),
        move |i| {
            let ((a, ac), (b, bc)) = (((i / k / 2) as u32 * 2 + 2, i / k % 2 != 0), ((i % k / 2) as u32 * 2 + 2, i % k % 2 != 0));
            // a point before the lower bound and beyond the upper one
            let w = (0..=2 * n + 4).any(|p| (p < a || p == a && !ac) && (p > b || p == b && !bc));
            let (l, u) = (LowerBound::new(T::mk(a), ac), UpperBound::new(T::mk(b), bc));
            ensure!(l.is_separated_from(&u) == w && u.is_separated_from(&l) == w, "separated: {} and {} the other way round, expected {}", l.is_separated_from(&u), u.is_separated_from(&l), w);
            Ok(())
        },
    )
}
fn qs(a: i64, b: i64, d: i64) -> Vec<Q> {
    (a * d..=b * d).map(|x| q(x, d)).collect()
}
fn i32_ok(o: usize, x: &i32, s: &i32) -> bool {
    match o {
        0 => x.checked_add(*s).is_some(),
        1 => x.checked_sub(*s).is_some(),
        2 => x.checked_mul(*s).is_some(),
        _ => x.checked_div(*s).is_some(),
    }
}
fn i8_ok(o: usize, x: &i8, s: &i8) -> bool {
    match o {
        0 => x.checked_add(*s),
        1 => x.checked_sub(*s),
        2 => x.checked_mul(*s),
        _ => x.checked_div(*s),
    }
    .is_some()
}
fn u8_ok(o: usize, x: &u8, s: &u8) -> bool {
    match o {
        0 => x.checked_add(*s).is_some(),
        1 => x.checked_sub(*s).is_some(),
        2 => x.checked_mul(*s).is_some(),
        _ => x.checked_div(*s).is_some(),
    }
}

// ---- C30 ----------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum Cop {
    New(usize),
    Inter(usize),
    IntoInter(usize, bool),
    Merge(usize),
    IntoMerged(usize, bool),
    Span(usize),
    IntoSpan(usize, bool),
    Arith(usize, i32),
    Assign(usize, i32),
    Neg,
    Bounds,
    Tuple,
    Shift(i32),
    Clone,
}
struct Closure {
    lim: i32,
    pool: Vec<Option<Tup<i32>>>,
    ops: Vec<Cop>,
}
impl Closure {
    fn apply(&self, x: Interval<i32>, op: Cop) -> Interval<i32> {
        let p = |k: usize| iv(&self.pool[k]);
        match op {
            Cop::New(k) => p(k),
            Cop::Inter(k) => {
                let mut x = x;
                x.intersection(p(k));
                x
            }
            Cop::IntoInter(k, false) => x.into_intersection(p(k)),
            Cop::IntoInter(k, true) => p(k).into_intersection(x),
            Cop::Merge(k) => {
                let mut x = x;
                match x.merge(p(k)) {
                    Ok(()) => x,
                    Err(o) => o.into_span(x),
                }
            }
            Cop::IntoMerged(k, false) => x.into_merged(p(k)).unwrap_or_else(|e| e.0),
            Cop::IntoMerged(k, true) => p(k).into_merged(x).unwrap_or_else(|e| e.1),
            Cop::Span(k) => {
                let mut x = x;
                x.span(p(k));
                x
            }
            Cop::IntoSpan(k, false) => x.into_span(p(k)),
            Cop::IntoSpan(k, true) => p(k).into_span(x),
            Cop::Arith(0, s) => x + s,
            Cop::Arith(1, s) => x - s,
            Cop::Arith(2, s) => x * s,
            Cop::Arith(_, s) => x / s,
            Cop::Assign(o, s) => {
                let mut x = x;
                match o {
                    0 => x += s,
                    1 => x -= s,
                    2 => x *= s,
                    _ => x /= s,
                }
                x
            }
            Cop::Neg => -x,
            Cop::Bounds => match x.into_bounds() {
                None => Interval::empty(),
                Some((l, u)) => Interval::from_bounds(l, u),
            },
            Cop::Tuple => match x.into_tuple() {
                None => Interval::empty(),
                Some((l, lc, u, uc)) => Interval::new(l, lc, u, uc),
            },
            Cop::Shift(s) => match x.into_bounds() {
                None => Interval::empty(),
                Some((l, mut u)) => {
                    u += s;
                    Interval::from_bounds(l + s, u)
                }
            },
            Cop::Clone => {
                #[allow(clippy::clone_on_copy)]
                let c = x.clone();
                let mut d = p(0);
                d.clone_from(&c);
                d
            }
        }
    }
    fn fits(&self, x: &Interval<i32>) -> bool {
        x.into_tuple().map_or(true, |t| t.0.abs() <= self.lim && t.2.abs() <= self.lim)
    }
}
fn describe(x: &Interval<i32>, probes: &[Interval<i32>]) -> String {
    // everything observable about an interval
    let mut s = format!("{} {:?} {} {} {:?} {:?} {:?} {:?} {:?}", x, x.into_tuple(), x.is_empty(), x.is_single(), x.is_lower_closed(), x.is_upper_closed(), x.lower(), x.upper(), x.bounds());
    for p in probes {
        s += &format!("{:?}{:?}{}{}{}{}", x.partial_cmp(p), p.partial_cmp(x), x == p, x.contains_interval(p), x.intersects(p), x.can_be_merged(p));
    }
    for v in -3..4 {
        s += &format!("{:?}{}{}", x.partial_cmp(&v), x.contains_val(&v), *x == v);
    }
    s
}
impl Scn for Closure {
    type St = Interval<i32>;
    fn label(&self) -> String {
        format!("closure of all operations on i32 intervals within [-{0}, {0}]", self.lim)
    }
    fn nops(&self) -> usize {
        self.ops.len()
    }
    fn op_str(&self, op: u16) -> String {
        match self.ops[op as usize] {
            Cop::New(k) | Cop::Inter(k) | Cop::IntoInter(k, _) | Cop::Merge(k) | Cop::IntoMerged(k, _) | Cop::Span(k) | Cop::IntoSpan(k, _) => format!("{:?} with {:?}", self.ops[op as usize], self.pool[k]),
            o => format!("{:?}", o),
        }
    }
    fn init(&self) -> Self::St {
        Interval::empty()
    }
    fn step(&self, st: &mut Self::St, op: u16) -> Step {
        let r = self.apply(*st, self.ops[op as usize]);
        if !self.fits(&r) {
            return Ok(Flow::Disabled);
        }
        *st = r;
        Ok(Flow::Go)
    }
    fn key(&self, st: &Self::St) -> Vec<u64> {
        // the whole representation
        let s = format!("{:?}", st);
        let mut k = vec![s.len() as u64];
        for c in s.as_bytes().chunks(8) {
            let mut b = [0; 8];
            b[..c.len()].copy_from_slice(c);
            k.push(u64::from_le_bytes(b));
        }
        k
    }
    fn check(&self, st: &mut Self::St) -> Res {
        let t = st.into_tuple();
        ensure!(st.is_empty() == t.is_none(), "is_empty() is {} for {:?}", st.is_empty(), t);
        if let Some((l, lc, u, uc)) = t {
            ensure!(l < u || l == u && lc && uc, "the interval {:?} is not well-formed", t);
        }
        // a freshly built interval with the same points
        let fresh = iv(&t);
        ensure!(*st == fresh && fresh == *st && !(*st != fresh), "{:?} is not equal to {:?}", st, fresh);
        ensure!(h(st) == h(&fresh), "{:?} hashes differently when built directly", st);
        let probes: Vec<_> = self.pool.iter().map(iv).collect();
        let (a, b) = (describe(st, &probes), describe(&fresh, &probes));
        ensure!(a == b, "{:?} behaves differently from the same interval built directly: {} / {}", t, a, b);
        for op in &self.ops {
            let (a, b) = (self.apply(*st, *op), self.apply(fresh, *op));
            ensure!(a == b && a.into_tuple() == b.into_tuple(), "{:?} of {:?} gives {:?}, of the same interval built directly {:?}", op, t, a, b);
        }
        Ok(())
    }
}
fn closure(lim: i32, full: bool) -> Closure {
    let mut pool: Vec<Option<Tup<i32>>> = vec![None];
    for (l, lc, u, uc) in [(0, true, 0, true), (-1, false, 1, false), (0, true, 2, false), (1, false, 3, true), (-3, true, -1, true), (2, true, 2, true), (-2, false, 0, true), (3, false, 7, false), (-lim, true, lim, true), (-lim, false, -1, false)] {
        if l <= u && l >= -lim && u <= lim {
            pool.push(Some((l, lc, u, uc)));
        }
    }
    let mut ops = vec![Cop::Neg, Cop::Bounds, Cop::Tuple, Cop::Clone];
    for s in [-1, 1, 3] {
        ops.push(Cop::Shift(s));
    }
    for k in 0..pool.len() {
        ops.extend([Cop::New(k), Cop::Inter(k), Cop::IntoInter(k, false), Cop::IntoInter(k, true), Cop::Merge(k), Cop::IntoMerged(k, false), Cop::IntoMerged(k, true), Cop::Span(k), Cop::IntoSpan(k, false), Cop::IntoSpan(k, true)]);
    }
    for s in if full { vec![-7, -3, -2, -1, 1, 2, 3, 5] } else { vec![-2, -1, 1, 2, 3] } {
        for o in 0..4 {
            ops.push(Cop::Arith(o, s));
            ops.push(Cop::Assign(o, s));
        }
    }
    ops.extend([Cop::Arith(2, 0), Cop::Assign(2, 0)]);
    Closure { lim, pool, ops }
}

// ---- C31 ----------------------------------------------------------------------------------------------
fn display<T: Ord + Clone + Debug + Hash + Display + Send + Sync + 'static>(name: &str, vals: Vec<T>) -> Box<dyn Job> {
    let t = tuples(&vals);
    let t2 = t.clone();
    let n = t.len();
    cases(
        format!("display of all intervals over {} values of {}", vals.len(), name),
        n,
        move |i| format!("{:?}", t2[i]),
        move |i| {
            let s = iv(&t[i]).to_string();
            ensure!(s == format!("{}", iv(&t[i])), "to_string() and format! differ");
            match &t[i] {
                None => ensure!(!s.is_empty(), "the empty interval prints as nothing"),
                Some((l, lc, u, uc)) => {
                    let w = format!("{}{},{}{}", if *lc { "[" } else { "(" }, l, u, if *uc { "]" } else { ")" });
                    ensure!(s == w, "prints as {:?}, expected {:?}", s, w);
                }
            }
            for (j, o) in t.iter().enumerate() {
                ensure!(j == i || iv(o).to_string() != s, "prints as {:?}, like {:?}", s, o);
            }
            Ok(())
        },
    )
}

// ---- C34 --------------------------------------------------------------------------------------------
thread_local! {
    /// counts down on every operation and clone of a `P`; panics at zero. The flag: after the value was changed.
    static FUSE: std::cell::Cell<(i32, bool)> = const { std::cell::Cell::new((-1, false)) };
}
fn tick() -> bool {
    FUSE.with(|f| {
        let (n, late) = f.get();
        if n < 0 {
            return false;
        }
        f.set((n - 1, late));
        n == 0
    })
}
/// A number whose arithmetic, comparisons, `clone` and destructor panic when the fuse says so.
#[derive(Hash, Debug)]
struct P(Box<i64>);
impl PartialEq for P {
    fn eq(&self, o: &P) -> bool {
        if tick() {
            panic!("planned")
        }
        self.0 == o.0
    }
}
impl Eq for P {}
impl PartialOrd for P {
    fn partial_cmp(&self, o: &P) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for P {
    fn cmp(&self, o: &P) -> Ordering {
        if tick() {
            panic!("planned")
        }
        self.0.cmp(&o.0)
    }
}
impl Drop for P {
    fn drop(&mut self) {
        if !std::thread::panicking() && tick() {
            panic!("planned")
        }
    }
}
fn p(x: i64) -> P {
    P(Box::new(x))
}
impl Clone for P {
    fn clone(&self) -> P {
        if tick() {
            panic!("planned")
        }
        P(self.0.clone())
    }
}
fn late() -> bool {
    FUSE.with(|f| f.get().1)
}
macro_rules! p_op {
    ($($t:ident $f:ident $ta:ident $fa:ident $e:expr;)*) => {$(
        impl $t for P {
            type Output = P;
            fn $f(self, o: P) -> P {
                if tick() {
                    panic!("planned")
                }
                let e: fn(i64, i64) -> i64 = $e;
                p(e(*self.0, *o.0))
            }
        }
        impl $ta for P {
            fn $fa(&mut self, o: P) {
                let boom = tick();
                let e: fn(i64, i64) -> i64 = $e;
                if !boom || late() {
                    *self.0 = e(*self.0, *o.0);
                }
                if boom {
                    panic!("planned")
                }
            }
        }
    )*};
}
p_op! {
    Add add AddAssign add_assign |a, b| a + b;
    Sub sub SubAssign sub_assign |a, b| a - b;
    Mul mul MulAssign mul_assign |a, b| a * b;
    Div div DivAssign div_assign |a, b| a / b;
}
fn assign<T: Ord + Clone + AddAssign + SubAssign + MulAssign + DivAssign>(o: usize, x: &mut Interval<T>, s: T) {
    match o {
        0 => *x += s,
        1 => *x -= s,
        2 => *x *= s,
        _ => *x /= s,
    }
}
/// What is left after a panic is an interval like any other.
fn left<T: Ord + Clone + Debug + Hash>(x: &Interval<T>, others: &[Option<Tup<T>>]) -> Res {
    let t = x.clone().into_tuple();
    if let Some((l, lc, u, uc)) = &t {
        ensure!(l < u || l == u && *lc && *uc, "the interval left by the panic has lower bound {:?} (closed: {}) and upper bound {:?} (closed: {})", l, lc, u, uc);
    }
    same("the interval left by the panic", x.clone(), &t)?;
    let fresh = iv(&t);
    for o in others {
        let o = iv(o);
        let all = |x: &Interval<T>| {
            let (mut a, mut b, mut c) = (x.clone(), x.clone(), x.clone());
            a.intersection(o.clone());
            let m = b.merge(o.clone());
            c.span(o.clone());
            (x.contains_interval(&o), o.contains_interval(x), x.intersects(&o), x.can_be_merged(&o), x.partial_cmp(&o), *x == o, (a, b, m, c), o.lower().map(|l| (x.contains_val(l.val()), x.partial_cmp(l.val()))))
        };
        ensure!(all(x) == all(&fresh), "the interval left by the panic, {:?}, does not behave like the same interval built directly", x);
    }
    Ok(())
}
/// Every interval, every in-place operation, every point of panic.
fn broken_arith(vals: Vec<i64>, scal: Vec<i64>) -> Box<dyn Job> {
    let t: Vec<Option<Tup<P>>> = tuples(&vals.iter().map(|x| p(*x)).collect::<Vec<_>>());
    let n = scal.len();
    let show: Vec<String> = t.iter().map(|x| format!("{:?}", x)).collect();
    let s2 = scal.clone();
    cases(
        "interval arithmetic by assignment, panicking at every point".to_string(),
        t.len() * n * 4,
        move |i| format!("{} {}= {:?}", show[i / n / 4], OPS[i % 4], s2[i / 4 % n]),
        move |i| {
            let (t, s, o) = (&t[i / n / 4], scal[i / 4 % n], i % 4);
            if o == 3 && s == 0 {
                return Ok(());
            }
            for when in [false, true] {
                for k in 0.. {
                    let mut x = iv(t);
                    let v = p(s);
                    FUSE.with(|f| f.set((k, when)));
                    let r = expect_panic(|| assign(o, &mut x, v));
                    let fired = FUSE.with(|f| f.replace((-1, false))).0 < 0;
                    if !fired {
                        ensure!(r.is_err(), "a panic of its own");
                        break;
                    }
                    ensure!(k < 1000, "an unbounded number of operations");
                    left(&x, &t_sample(&vals_of(t)))?;
                    // and it can be used in the same operation again
                    let before = x.clone().into_tuple();
                    let mut y = iv(&before);
                    assign(o, &mut x, p(s));
                    assign(o, &mut y, p(s));
                    ensure!(x == y && h(&x) == h(&y), "repeating the operation on {:?} gives {:?}, expected {:?}", before, x, y);
                }
            }
            Ok(())
        },
    )
}
/// Every pair of intervals, every set operation in place, every point of panic.
fn broken_sets(vals: Vec<i64>) -> Box<dyn Job> {
    let t: Vec<Option<Tup<P>>> = tuples(&vals.iter().map(|x| p(*x)).collect::<Vec<_>>());
    let n = t.len();
    let show: Vec<String> = t.iter().map(|x| format!("{:?}", x)).collect();
    const NAMES: [&str; 5] = ["intersection", "merge", "span", "clone_from", "="];
    cases(
        "set operations in place, panicking at every point".to_string(),
        n * n * 5,
        move |i| format!("{} {} {}", show[i / 5 / n], NAMES[i % 5], show[i / 5 % n]),
        move |i| {
            let (a, b, o) = (&t[i / 5 / n], &t[i / 5 % n], i % 5);
            for k in 0.. {
                let (mut x, mut y) = (iv(a), Some(iv(b)));
                FUSE.with(|f| f.set((k, false)));
                let r = expect_panic(|| match o {
                    0 => x.intersection(y.take().unwrap()),
                    1 => {
                        if let Err(z) = x.merge(y.take().unwrap()) {
                            y = Some(z)
                        }
                    }
                    2 => x.span(y.take().unwrap()),
                    3 => x.clone_from(y.as_ref().unwrap()),
                    _ => x = y.take().unwrap(),
                });
                let fired = FUSE.with(|f| f.replace((-1, false))).0 < 0;
                if !fired {
                    ensure!(r.is_err(), "a panic of its own");
                    break;
                }
                ensure!(k < 1000, "an unbounded number of operations");
                let others = t_sample(&[vals_of(a), vals_of(b)].concat()[..4].to_vec());
                left(&x, &others)?;
                // whatever was done of it, no point appears that would belong to neither
                let (l, u) = (iv(a).into_span(iv(b)), x.clone());
                ensure!(l.contains_interval(&u), "the interval left by the panic, {:?}, reaches beyond both operands", u);
            }
            Ok(())
        },
    )
}
fn vals_of(t: &Option<Tup<P>>) -> Vec<i64> {
    match t {
        None => vec![0, 0],
        Some((l, _, u, _)) => vec![*l.0, *u.0, *l.0 + 1],
    }
}
fn t_sample(v: &[i64]) -> Vec<Option<Tup<P>>> {
    let mut v = v.to_vec();
    v.sort();
    v.dedup();
    tuples(&v.into_iter().map(p).collect::<Vec<_>>())
}
/// Machine integers: whatever overflows or divides by zero.
fn broken_ints<T>(name: &str, vals: Vec<T>) -> Box<dyn Job>
where
    T: Ord + Copy + Debug + Hash + Send + Sync + 'static + AddAssign + SubAssign + MulAssign + DivAssign,
{
    let t = tuples(&vals);
    let (t2, v2) = (t.clone(), vals.clone());
    let n = vals.len();
    let probes = tuples(&[vals[0], vals[n / 2], vals[n - 1]]);
    cases(
        format!("interval arithmetic by assignment beyond the limits of {}", name),
        t.len() * n * 4,
        move |i| format!("{:?} {}= {:?}", t2[i / n / 4], OPS[i % 4], v2[i / 4 % n]),
        move |i| {
            let mut x = iv(&t[i / n / 4]);
            let s = vals[i / 4 % n];
            let _ = expect_panic(|| assign(i % 4, &mut x, s));
            left(&x, &probes)
        },
    )
}

fn jobs(prop: &str, quick: bool) -> Vec<Box<dyn Job>> {
    let mut js: Vec<Box<dyn Job>> = vec![];
    let n = if quick { 7 } else { 8 };
    match prop {
        #[cfg(feature = "C21")]
        "C21" => {
            types!(js, constructors, 18);
            js.push(identities(18));
        }
        #[cfg(feature = "C22")]
        "C22" => {
            types!(js, membership, 8);
            types!(js, containment, n);
        }
        #[cfg(feature = "C23")]
        "C23" => {
            types!(js, intersection, n);
            types!(js, triples, "intersection", if quick { 5 } else { 6 });
        }
        #[cfg(feature = "C24")]
        "C24" => {
            types!(js, merging, n);
            types!(js, triples, "merging", if quick { 5 } else { 6 });
        }
        #[cfg(feature = "C25")]
        "C25" => {
            types!(js, spanning, n);
            types!(js, triples, "span", if quick { 5 } else { 6 });
        }
        #[cfg(feature = "C26")]
        "C26" => {
            types!(js, comparing, n);
            types!(js, comparing_values, 8);
        }
        #[cfg(feature = "C27")]
        "C27" => {
            types!(js, bounds_order, 8);
            types!(js, bounds_values, 8);
            types!(js, bounds_total, 8);
        }
        #[cfg(feature = "C28")]
        "C28" => {
            let v = if quick { qs(-2, 2, 2) } else { qs(-4, 4, 2) };
            let s: Vec<Q> = [(-3, 1), (-2, 1), (-1, 1), (-1, 2), (-1, 3), (0, 1), (1, 3), (1, 2), (1, 1), (3, 2), (2, 1), (5, 1)].iter().map(|x| q(x.0, x.1)).collect();
            js.push(exact_points(v.clone(), s.clone(), qs(-5, 5, 4)));
            let okq = |o: usize, _: &Q, s: &Q| o != 3 || s.0 != 0;
            js.push(arith::<Q, Q>("exact rationals", v.clone(), s.clone(), vec![0, 1, 2, 3], okq));
            js.push(arith_assign::<Q>("exact rationals", v.clone(), s, vec![0, 1, 2, 3], okq));
            js.push(negation::<Q>("exact rationals", v));
            let v: Vec<i32> = (if quick { -5..=6 } else { -12..=12 }).collect();
            js.push(arith::<i32, i32>("i32", v.clone(), (-7..=7).collect(), vec![0, 1, 2, 3], i32_ok));
            js.push(arith_assign::<i32>("i32", v.clone(), (-7..=7).collect(), vec![0, 1, 2, 3], i32_ok));
            js.push(negation::<i32>("i32", v));
            let v = vec![i32::MIN, i32::MIN + 1, -65536, -1, 0, 1, 65536, i32::MAX - 1, i32::MAX];
            js.push(arith::<i32, i32>("i32 at the limits", v.clone(), v.clone(), vec![0, 1, 2, 3], i32_ok));
            js.push(arith_assign::<i32>("i32 at the limits", v.clone(), v.clone(), vec![0, 1, 2, 3], i32_ok));
            js.push(negation::<i32>("i32 at the limits", v[1..].to_vec()));
            let v = vec![0u8, 1, 2, 3, 100, 127, 128, 200, 254, 255];
            js.push(arith::<u8, u8>("u8", v.clone(), v.clone(), vec![0, 1, 2, 3], u8_ok));
            js.push(arith_assign::<u8>("u8", v.clone(), v.clone(), vec![0, 1, 2, 3], u8_ok));
            // whole types: all intervals (quick: over every 5th value), all scalars
            let grid: Vec<i32> = (0..=255).filter(|x| !quick || x % 5 == 0 || [1, 126, 127, 128, 129, 254].contains(x)).collect();
            let (v, s): (Vec<u8>, Vec<u8>) = (grid.iter().map(|x| *x as u8).collect(), (0..=255).collect());
            js.push(arith::<u8, u8>("u8, all scalars", v.clone(), s.clone(), vec![0, 1, 2, 3], u8_ok));
            js.push(arith_assign::<u8>("u8, all scalars", v, s, vec![0, 1, 2, 3], u8_ok));
            let (v, s): (Vec<i8>, Vec<i8>) = (grid.iter().map(|x| (*x - 128) as i8).collect(), (-128..=127).collect());
            js.push(arith::<i8, i8>("i8, all scalars", v.clone(), s.clone(), vec![0, 1, 2, 3], i8_ok));
            js.push(arith_assign::<i8>("i8, all scalars", v, s, vec![0, 1, 2, 3], i8_ok));
            js.push(negation::<i8>("i8", (-127..=127).collect()));
            let v: Vec<Wrapping<u8>> = [0u8, 1, 2, 63, 64, 100, 127, 128, 129, 200, 254, 255].iter().map(|x| Wrapping(*x)).collect();
            let okw = |o: usize, _: &Wrapping<u8>, s: &Wrapping<u8>| o != 3 || s.0 != 0;
            js.push(arith::<Wrapping<u8>, Wrapping<u8>>("wrapping u8", v.clone(), v.clone(), vec![0, 1, 2, 3], okw));
            js.push(arith_assign::<Wrapping<u8>>("wrapping u8", v.clone(), v.clone(), vec![0, 1, 2, 3], okw));
            js.push(negation::<Wrapping<u8>>("wrapping u8", v));
            let v: Vec<Time> = (-4..=4).map(|x| Time(x * 3)).collect();
            let s: Vec<Span> = [-5, -1, 0, 1, 2, 7].iter().map(|x| Span(*x, Box::new(1))).collect();
            js.push(arith::<Time, Span>("a scalar of another type", v, s, vec![0, 1, 2, 3], |o, _, s| o != 3 || s.0 != 0));
            let v: Vec<Word> = ["", "a", "aa", "ab", "aba", "b", "ba", "bba", "c"].iter().map(|x| Word(x.to_string())).collect();
            let s: Vec<Word> = ["a", "b", "c", "ab", "", "ba"].iter().map(|x| Word(x.to_string())).collect();
            let okw = |o: usize, _: &Word, s: &Word| (o != 3 && o != 1) || !s.0.is_empty();
            js.push(arith::<Word, Word>("non-commutative operations on strings", v.clone(), s.clone(), vec![0, 1, 2, 3], okw));
            js.push(arith_assign::<Word>("non-commutative operations on strings", v.clone(), s, vec![0, 1, 2, 3], okw));
            js.push(negation::<Word>("non-monotonous negation of strings", v));
        }
        #[cfg(feature = "C29")]
        "C29" => {
            types!(js, separation, 8);
            let v = qs(-3, 3, 3);
            js.push(bound_arith::<Q, Q>("exact rationals", v.clone(), v, |o, _, s| o != 3 || s.0 != 0));
            let v: Vec<i32> = (-20..=20).chain([i32::MIN, i32::MIN + 1, 65536, i32::MAX - 1, i32::MAX]).collect();
            js.push(bound_arith::<i32, i32>("i32", v.clone(), v, i32_ok));
            let v: Vec<u8> = (0..=255).collect();
            js.push(bound_arith::<u8, u8>("u8, all pairs", v.clone(), v, u8_ok));
            let v: Vec<i8> = (-128..=127).collect();
            js.push(bound_arith::<i8, i8>("i8, all pairs", v.clone(), v, i8_ok));
            let v: Vec<Wrapping<u8>> = (0..=255).map(Wrapping).collect();
            js.push(bound_arith::<Wrapping<u8>, Wrapping<u8>>("wrapping u8, all pairs", v.clone(), v, |o, _, s| o != 3 || s.0 != 0));
            let v: Vec<Time> = (-4..=4).map(|x| Time(x * 3)).collect();
            let s: Vec<Span> = (-7..=7).map(|x| Span(x, Box::new(1))).collect();
            js.push(bound_arith::<Time, Span>("a scalar of another type", v, s, |o, _, s| o != 3 || s.0 != 0));
            let v: Vec<Word> = ["", "a", "aa", "ab", "aba", "b", "ba", "bba", "c"].iter().map(|x| Word(x.to_string())).collect();
            js.push(bound_arith::<Word, Word>("non-commutative operations on strings", v.clone(), v, |o, _, s| (o != 3 && o != 1) || !s.0.is_empty()));
        }
        #[cfg(feature = "C30")]
        "C30" => {
            for lim in if quick { vec![3, 7, 10, 13] } else { vec![3, 7, 10, 14, 20, 30] } {
                js.push(explore(closure(lim, !quick), Mode::Bfs { max_states: 1_000_000 }));
            }
            js.push(explore(closure(3, !quick), Mode::Words { depth: 2 }));
        }
        #[cfg(feature = "C31")]
        "C31" => {
            js.push(display::<i32>("i32", (-6..=12).collect()));
            js.push(display::<i64>("i64", vec![i64::MIN, -10, -1, 0, 1, 10, 11, 1 << 40, i64::MAX]));
            js.push(display::<u8>("u8", vec![0, 1, 9, 10, 11, 12, 99, 100, 101, 111, 112, 254, 255]));
            js.push(display::<char>("char", "09AZaz Ø∅ß~".chars().collect::<std::collections::BTreeSet<_>>().into_iter().collect()));
            js.push(display::<String>("String", ["", "Ø", "∅", "a", "aa", "ab", "b", "ba", "empty", "∅∅", "{}", "{0}", "%s", "\\", "\n"].iter().map(|s| s.to_string()).collect()));
            js.push(display::<&'static str>("&str", vec!["", "a", "aa", "b", "Ø", ";", " ", "None"]));
            js.push(display::<bool>("bool", vec![false, true]));
        }
        #[cfg(feature = "C34")]
        "C34" => {
            let (v, c) = if quick { (4, 3) } else { (7, 6) };
            js.push(broken_arith((-v..=v).collect(), (-c..=c).collect()));
            js.push(broken_sets((0..if quick { 4 } else { 7 }).map(|x| 2 * x).collect()));
            js.push(broken_ints::<i8>("i8", if quick { vec![-128, -127, -100, -64, -2, -1, 0, 1, 2, 3, 64, 100, 126, 127] } else { (-128..=127).step_by(5).chain([-127, -1, 0, 1, 126]).collect() }));
            js.push(broken_ints::<u8>("u8", if quick { vec![0, 1, 2, 3, 16, 127, 128, 200, 250, 254, 255] } else { (0..=255).step_by(5).chain([1, 2, 127, 254]).collect() }));
            js.push(broken_ints::<i64>("i64", vec![i64::MIN, i64::MIN + 1, -(1 << 32), -1, 0, 1, 2, 1 << 31, 1 << 32, i64::MAX - 1, i64::MAX]));
            js.push(broken_ints::<usize>("usize", vec![0, 1, 2, 1 << 32, usize::MAX / 2, usize::MAX - 1, usize::MAX]));
        }
        _ => {}
    }
    js
}
fn main() {
    main_with(jobs)
}
