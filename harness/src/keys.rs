//! Key types, hasher types and feeding iterators shared by the hash-based collections.
use crate::hash::*;
use crate::tok;
use fnv::FnvBuildHasher;
use std::collections::hash_map::RandomState;
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash};

// ---- keys -----------------------------------------------------------------------------------------
pub trait Key: Hash + Eq + Clone + Debug + Send + 'static {
    fn mk(n: u32) -> Self;
    fn id(&self) -> u32;
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct K(pub u8);
impl Key for K {
    fn mk(n: u32) -> K {
        K(n as u8)
    }
    fn id(&self) -> u32 {
        self.0 as u32
    }
}
impl Key for u32 {
    fn mk(n: u32) -> u32 {
        n
    }
    fn id(&self) -> u32 {
        *self
    }
}
impl Key for &'static str {
    fn mk(n: u32) -> Self {
        ["", "a", "b", "aa", "ab", "ba", "bb", "c"][n as usize % 8]
    }
    fn id(&self) -> u32 {
        (0..8).find(|n| Self::mk(*n) == *self).unwrap()
    }
}
impl Key for String {
    fn mk(n: u32) -> Self {
        format!("key-{}", n)
    }
    fn id(&self) -> u32 {
        self[4..].parse().unwrap()
    }
}
/// A key whose clones and destructions are tracked.
#[derive(Clone, PartialEq, Eq)]
pub struct Tk(pub tok::Tok);
impl Hash for Tk {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        h.write_u8(self.0.val() as u8)
    }
}
impl Debug for Tk {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Tk({})", self.0.val())
    }
}
impl Key for Tk {
    fn mk(n: u32) -> Self {
        Tk(tok::Tok::new(n))
    }
    fn id(&self) -> u32 {
        self.0.val()
    }
}

// ---- hashers --------------------------------------------------------------------------------------
pub trait Hs: BuildHasher + Default + Clone + Debug + 'static {
    const NAME: &'static str;
    fn mk() -> Self {
        Self::default()
    }
}
impl Hs for Table {
    const NAME: &'static str = "Table";
}
impl Hs for Table2 {
    const NAME: &'static str = "Table2";
}
impl Hs for FnvBuildHasher {
    const NAME: &'static str = "Fnv";
}
impl Hs for RandomState {
    const NAME: &'static str = "RandomState";
}

// ---- feeding --------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hint {
    Exact,
    Unknown,
    Over,
    Low,
    Huge,
}
pub const HINTS: [Hint; 5] = [Hint::Exact, Hint::Unknown, Hint::Over, Hint::Low, Hint::Huge];
pub struct Feed<I>(pub I, pub Hint);
impl<I: ExactSizeIterator> Iterator for Feed<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.0.len();
        match self.1 {
            Hint::Exact => (n, Some(n)),
            Hint::Unknown => (0, None),
            Hint::Over => (0, Some(n + 7)),
            Hint::Low => (n / 2, None),
            Hint::Huge => (n / 3, Some(usize::MAX)),
        }
    }
}

