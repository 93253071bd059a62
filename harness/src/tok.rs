//! Tracked elements: every creation, clone and destruction is recorded, and user-code panics can be
//! injected at a chosen event.
use std::cell::RefCell;
use std::cmp::Ordering;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ev {
    Drop,
    Clone,
    Next,
    Hash,
    Eq,
}

#[derive(Default)]
struct Reg {
    st: Vec<u8>, // 1 live, 2 dead
    live: usize,
    errs: Vec<String>,
    fuse: Option<(Ev, u32)>,
    blown: bool,
}
thread_local! { static REG: RefCell<Reg> = RefCell::new(Reg::default()); }

const MAGIC: u32 = 0x70C0_70C0;
const GONE: u32 = 0xDEAD_70C0;

/// Element with identity (`uid`) and value (`val`).
pub struct Tok {
    magic: u32,
    uid: u32,
    val: u32,
}

fn with<R>(f: impl FnOnce(&mut Reg) -> R) -> R {
    crate::alloc::untrack(|| REG.with(|r| f(&mut r.borrow_mut())))
}

pub fn reset() {
    with(|r| {
        r.st.clear();
        r.live = 0;
        r.errs.clear();
        r.fuse = None;
        r.blown = false;
    })
}
pub fn live() -> usize {
    with(|r| r.live)
}
pub fn error() -> Option<String> {
    with(|r| r.errs.first().cloned())
}
pub fn arm(e: Ev, n: u32) {
    with(|r| {
        r.fuse = Some((e, n));
        r.blown = false
    })
}
/// Disarms the fuse; true if it fired.
pub fn disarm() -> bool {
    with(|r| {
        r.fuse = None;
        std::mem::replace(&mut r.blown, false)
    })
}
/// A point where user code may panic.
pub fn point(e: Ev) {
    let fire = with(|r| match r.fuse {
        Some((k, n)) if k == e => {
            if n == 0 {
                r.fuse = None;
                r.blown = true;
                true
            } else {
                r.fuse = Some((k, n - 1));
                false
            }
        }
        _ => false,
    });
    if fire {
        std::panic::resume_unwind(Box::new("injected"));
    }
}

impl Tok {
    pub fn new(val: u32) -> Tok {
        let uid = with(|r| {
            r.st.push(1);
            r.live += 1;
            r.st.len() as u32 - 1
        });
        Tok { magic: MAGIC, uid, val }
    }
    fn ok(&self, what: &str) -> bool {
        let (m, u) = (self.magic, self.uid);
        with(|r| {
            let good = m == MAGIC && r.st.get(u as usize) == Some(&1);
            if !good && r.errs.len() < 4 {
                let why = if m == GONE || (m == MAGIC && r.st.get(u as usize) == Some(&2)) {
                    "already destroyed"
                } else {
                    "never stored (uninitialized or foreign memory)"
                };
                r.errs.push(format!("{} of an element that was {}", what, why));
            }
            good
        })
    }
    pub fn val(&self) -> u32 {
        self.ok("read");
        self.val
    }
    pub fn uid(&self) -> u32 {
        self.ok("read");
        self.uid
    }
    pub fn is_live(&self) -> bool {
        self.ok("read")
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        if self.ok("destruction") {
            let u = self.uid as usize;
            with(|r| {
                r.st[u] = 2;
                r.live -= 1
            });
        }
        unsafe { std::ptr::write_volatile(&mut self.magic, GONE) };
        if !std::thread::panicking() {
            point(Ev::Drop);
        }
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        self.ok("clone");
        point(Ev::Clone);
        Tok::new(self.val)
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        self.val() == o.val()
    }
}
impl Eq for Tok {}
impl PartialOrd for Tok {
    fn partial_cmp(&self, o: &Tok) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tok {
    fn cmp(&self, o: &Tok) -> Ordering {
        self.val().cmp(&o.val())
    }
}
