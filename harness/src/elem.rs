//! Element types: how to make the n-th distinct value of a type and how to read it back.
use crate::tok::Tok;
use std::num::NonZeroU8;

pub trait Elem: Clone + PartialEq + PartialOrd + 'static {
    const NAME: &'static str;
    /// Number of distinct values; `rd(mk(n)) == n % MOD`.
    const MOD: u32;
    const TRACKED: bool = false;
    fn mk(n: u32) -> Self;
    fn rd(&self) -> u32;
    fn uid(&self) -> u32 {
        0
    }
}
impl Elem for Tok {
    const NAME: &'static str = "Tok";
    const MOD: u32 = u32::MAX;
    const TRACKED: bool = true;
    fn mk(n: u32) -> Self {
        Tok::new(n)
    }
    fn rd(&self) -> u32 {
        self.val()
    }
    fn uid(&self) -> u32 {
        Tok::uid(self)
    }
}
impl Elem for u32 {
    const NAME: &'static str = "u32";
    const MOD: u32 = u32::MAX;
    fn mk(n: u32) -> Self {
        n
    }
    fn rd(&self) -> u32 {
        *self
    }
}
impl Elem for u8 {
    const NAME: &'static str = "u8";
    const MOD: u32 = 256;
    fn mk(n: u32) -> Self {
        n as u8
    }
    fn rd(&self) -> u32 {
        *self as u32
    }
}
impl Elem for char {
    const NAME: &'static str = "char";
    const MOD: u32 = 0x8000;
    fn mk(n: u32) -> Self {
        char::from_u32(n % Self::MOD).unwrap()
    }
    fn rd(&self) -> u32 {
        *self as u32
    }
}
impl Elem for bool {
    const NAME: &'static str = "bool";
    const MOD: u32 = 2;
    fn mk(n: u32) -> Self {
        n % 2 == 1
    }
    fn rd(&self) -> u32 {
        match *self {
            true => 1,
            false => 0,
        }
    }
}
static NUMS: [u32; 64] = {
    let mut a = [0u32; 64];
    let mut i = 0;
    while i < 64 {
        a[i] = i as u32;
        i += 1;
    }
    a
};
impl Elem for &'static u32 {
    const NAME: &'static str = "&u32";
    const MOD: u32 = 64;
    fn mk(n: u32) -> Self {
        &NUMS[(n % 64) as usize]
    }
    fn rd(&self) -> u32 {
        **self
    }
}
impl Elem for Box<u32> {
    const NAME: &'static str = "Box<u32>";
    const MOD: u32 = u32::MAX;
    fn mk(n: u32) -> Self {
        Box::new(n)
    }
    fn rd(&self) -> u32 {
        **self
    }
}
impl Elem for String {
    const NAME: &'static str = "String";
    const MOD: u32 = u32::MAX;
    fn mk(n: u32) -> Self {
        n.to_string()
    }
    fn rd(&self) -> u32 {
        self.parse().unwrap()
    }
}
impl Elem for Option<Box<u32>> {
    const NAME: &'static str = "Option<Box<u32>>";
    const MOD: u32 = 3;
    fn mk(n: u32) -> Self {
        let n = n % Self::MOD;
        if n == 0 { None } else { Some(Box::new(n)) }
    }
    fn rd(&self) -> u32 {
        self.as_ref().map(|b| **b).unwrap_or(0)
    }
}
impl Elem for () {
    const NAME: &'static str = "()";
    const MOD: u32 = 1;
    fn mk(_: u32) -> Self {}
    fn rd(&self) -> u32 {
        0
    }
}
impl Elem for NonZeroU8 {
    const NAME: &'static str = "NonZeroU8";
    const MOD: u32 = 255;
    fn mk(n: u32) -> Self {
        NonZeroU8::new((n % 255) as u8 + 1).unwrap()
    }
    fn rd(&self) -> u32 {
        self.get() as u32 - 1
    }
}
impl Elem for [u64; 5] {
    const NAME: &'static str = "[u64;5]";
    const MOD: u32 = u32::MAX;
    fn mk(n: u32) -> Self {
        [n as u64, 1 + n as u64, 2, !(n as u64), 4]
    }
    fn rd(&self) -> u32 {
        assert!(self[1] == self[0] + 1 && self[2] == 2 && self[3] == !self[0] && self[4] == 4, "torn element");
        self[0] as u32
    }
}
impl Elem for [u64; 40] {
    const NAME: &'static str = "[u64;40]";
    const MOD: u32 = u32::MAX;
    fn mk(n: u32) -> Self {
        let mut a = [n as u64; 40];
        a[39] = !(n as u64);
        a
    }
    fn rd(&self) -> u32 {
        assert!(self[1..39].iter().all(|x| *x == self[0]) && self[39] == !self[0], "torn element");
        self[0] as u32
    }
}
/// 64-byte aligned element with padding.
#[derive(Clone, PartialEq, PartialOrd)]
#[repr(align(64))]
pub struct Al(u8, u32);
impl Elem for Al {
    const NAME: &'static str = "align64";
    const MOD: u32 = u32::MAX;
    fn mk(n: u32) -> Self {
        Al(n as u8, n)
    }
    fn rd(&self) -> u32 {
        assert!(self as *const Al as usize % 64 == 0, "misaligned element");
        assert!(self.0 == self.1 as u8, "torn element");
        self.1
    }
}
/// Zero-sized element with a destructor; only the number of live values is tracked.
#[derive(PartialEq, PartialOrd)]
pub struct Zd(());
std::thread_local! { pub static ZLIVE: std::cell::Cell<i64> = const { std::cell::Cell::new(0) }; }
fn z(d: i64) {
    ZLIVE.with(|c| c.set(c.get() + d))
}
impl Drop for Zd {
    fn drop(&mut self) {
        z(-1)
    }
}
impl Clone for Zd {
    fn clone(&self) -> Zd {
        z(1);
        Zd(())
    }
}
impl Elem for Zd {
    const NAME: &'static str = "ZST with Drop";
    const MOD: u32 = 1;
    fn mk(_: u32) -> Self {
        z(1);
        Zd(())
    }
    fn rd(&self) -> u32 {
        0
    }
}
