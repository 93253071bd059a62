//! C39: operations in the middle of others. The objects and operations are those of `threads.rs`.
#[path = "threads.rs"]
#[allow(dead_code)]
mod threads;
fn main() {
    threads::main_nested()
}
