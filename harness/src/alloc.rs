//! Instrumented global allocator: counts allocator traffic of marked regions, verifies that every
//! block is released with the layout it was allocated with, surrounds blocks with canaries,
//! fills fresh memory with 0xA5 and released memory with 0xDD, and caps memory use.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Mon;

const LIVE: u64 = 0x11FE_B10C_600D_0001;
const LIVE_TAGGED: u64 = 0x11FE_B10C_600D_0003;
const DEAD: u64 = 0xDEAD_B10C_0000_0000;
const CAN: u64 = 0xC0DE_CAFE_F00D_D00D;
/// Bytes one thread may hold.
const CAP: i64 = 3 << 30;

thread_local! {
    static TRACK: Cell<u32> = const { Cell::new(0) };
    static EVENTS: Cell<u64> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static TAGGED: Cell<i64> = const { Cell::new(0) };
    static ERR: Cell<u32> = const { Cell::new(0) };
    static HELD: Cell<i64> = const { Cell::new(0) };
}
fn held(d: i64) -> i64 {
    HELD.try_with(|c| {
        c.set(c.get() + d);
        c.get()
    })
    .unwrap_or(0)
}

#[repr(C)]
struct Head {
    magic: u64,
    size: u64,
    align: u64,
    pad: u64,
}

fn geom(l: Layout) -> (Layout, usize) {
    let a = l.align().max(32);
    let off = a; // >= 32 == size_of::<Head>()
    let size = off + l.size() + 8;
    (Layout::from_size_align(size, a).unwrap(), off)
}

fn bump(c: &'static std::thread::LocalKey<Cell<u64>>) {
    let _ = c.try_with(|c| c.set(c.get() + 1));
}

fn tracking() -> bool {
    TRACK.try_with(|t| t.get() > 0).unwrap_or(false)
}

unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let (gl, off) = geom(l);
        if held(gl.size() as i64) > CAP {
            let m = b"mc: memory cap exceeded\n";
            extern "C" {
                fn write(fd: i32, p: *const u8, n: usize) -> isize;
            }
            write(2, m.as_ptr(), m.len());
            std::process::abort();
        }
        let p = System.alloc(gl);
        if p.is_null() {
            return p;
        }
        let t = tracking();
        let q = p.add(off);
        let h = q.sub(32) as *mut Head;
        *h = Head { magic: if t { LIVE_TAGGED } else { LIVE }, size: l.size() as u64, align: l.align() as u64, pad: 0 };
        if t {
            bump(&EVENTS);
            bump(&ALLOCS);
            let _ = TAGGED.try_with(|c| c.set(c.get() + 1));
            std::ptr::write_bytes(q, 0xA5, l.size());
        }
        (q.add(l.size()) as *mut u64).write_unaligned(CAN);
        q
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let h = q.sub(32) as *mut Head;
        let (magic, size, align) = ((*h).magic, (*h).size, (*h).align);
        let mut e = 0;
        if magic != LIVE && magic != LIVE_TAGGED {
            e |= 1;
        } else {
            if size != l.size() as u64 || align != l.align() as u64 {
                e |= 2;
            }
            if (q.add(size as usize) as *const u64).read_unaligned() != CAN {
                e |= 4;
            }
        }
        if e != 0 {
            let _ = ERR.try_with(|c| c.set(c.get() | e));
            return; // leak it
        }
        if magic == LIVE_TAGGED {
            let _ = TAGGED.try_with(|c| c.set(c.get() - 1));
            std::ptr::write_bytes(q, 0xDD, l.size());
        }
        if tracking() {
            bump(&EVENTS);
        }
        (*h).magic = DEAD;
        let (gl, off) = geom(l);
        held(-(gl.size() as i64));
        System.dealloc(q.sub(off), gl);
    }
}

/// Runs `f` with allocator traffic attributed to the collection under test.
pub fn track<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            TRACK.with(|t| t.set(t.get() - 1));
        }
    }
    TRACK.with(|t| t.set(t.get() + 1));
    let _g = G;
    f()
}
/// Suspends tracking (for harness work inside a tracked region).
pub fn untrack<R>(f: impl FnOnce() -> R) -> R {
    struct G(u32);
    impl Drop for G {
        fn drop(&mut self) {
            TRACK.with(|t| t.set(self.0));
        }
    }
    let _g = G(TRACK.with(|t| t.replace(0)));
    f()
}
pub fn events() -> u64 {
    EVENTS.with(|e| e.get())
}
/// Allocations and reallocations only.
pub fn allocs() -> u64 {
    ALLOCS.with(|e| e.get())
}
pub fn tagged_live() -> i64 {
    TAGGED.with(|e| e.get())
}
pub fn reset() {
    EVENTS.with(|e| e.set(0));
    ALLOCS.with(|e| e.set(0));
    TAGGED.with(|e| e.set(0));
    ERR.with(|e| e.set(0));
}
pub fn error() -> Option<String> {
    let e = ERR.with(|e| e.replace(0));
    if e == 0 {
        return None;
    }
    let mut s = String::from("heap error:");
    if e & 1 != 0 {
        s += " release of memory that is not an allocated block (double or invalid free);";
    }
    if e & 2 != 0 {
        s += " block released with a different layout than it was allocated with;";
    }
    if e & 4 != 0 {
        s += " write beyond the end of a heap block;";
    }
    Some(s)
}
