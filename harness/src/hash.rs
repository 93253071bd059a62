//! Deterministic hashing owned by the harness: a table maps each key byte to its hash.
use std::cell::Cell;
use std::hash::{BuildHasher, Hasher};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Table(pub [u8; 8]);
thread_local! { static DEF: Cell<Table> = const { Cell::new(Table([0; 8])) }; }

pub fn set_default(t: Table) {
    DEF.with(|d| d.set(t))
}
impl Default for Table {
    fn default() -> Self {
        DEF.with(|d| d.get())
    }
}
/// A second type of hasher builder, for operations mixing hasher types.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Table2(pub Table);
impl Default for Table2 {
    fn default() -> Self {
        Table2(Table([7, 6, 5, 4, 3, 2, 1, 0]))
    }
}

pub struct TH {
    t: [u8; 8],
    v: u64,
    big: bool,
}
impl Hasher for TH {
    fn finish(&self) -> u64 {
        if self.big {
            // larger universes: spread bits
            self.v.wrapping_mul(0x9E37_79B9_7F4A_7C15)
        } else {
            let h = self.t[(self.v & 7) as usize] as u64;
            // low bits choose the bucket, high bits the tag
            h | (h << 57)
        }
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.v = self.v.wrapping_mul(257).wrapping_add(*x as u64);
            self.big = true;
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.v = i as u64
    }
    fn write_u32(&mut self, i: u32) {
        self.v = i as u64;
        self.big = true
    }
}
impl BuildHasher for Table {
    type Hasher = TH;
    fn build_hasher(&self) -> TH {
        TH { t: self.0, v: 0, big: false }
    }
}
impl BuildHasher for Table2 {
    type Hasher = TH;
    fn build_hasher(&self) -> TH {
        self.0.build_hasher()
    }
}

/// Hash assignments for `n` keys: all functions into `m` values.
pub fn all_tables(n: usize, m: u8) -> Vec<Table> {
    let mut out = vec![];
    let total = (m as usize).pow(n as u32);
    for mut x in 0..total {
        let mut t = [0u8; 8];
        for k in t.iter_mut().take(n) {
            *k = (x % m as usize) as u8;
            x /= m as usize;
        }
        out.push(Table(t));
    }
    out
}
/// A few representative assignments: distinct ascending, descending, mixed, all colliding, pairwise colliding.
pub fn few_tables() -> Vec<Table> {
    vec![
        Table([0, 1, 2, 3, 4, 5, 6, 7]),
        Table([7, 6, 5, 4, 3, 2, 1, 0]),
        Table([2, 0, 3, 1, 6, 4, 7, 5]),
        Table([0; 8]),
        Table([0, 0, 1, 1, 2, 2, 3, 3]),
        Table([0, 16, 32, 48, 64, 80, 96, 112]),
    ]
}
