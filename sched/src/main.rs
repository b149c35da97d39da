#[path = "../../seq/src/common.rs"]
#[allow(dead_code, unused)]
mod common;
mod explore;
mod props;

use std::alloc::{GlobalAlloc, Layout as L, System};
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::SeqCst};

/// Counts the live allocations of one size: the luma planes of the frames under test.
pub struct Counter;
pub static PLANE: AtomicUsize = AtomicUsize::new(usize::MAX);
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static PEAK: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counter {
    unsafe fn alloc(&self, l: L) -> *mut u8 {
        if l.align() == 64 && l.size() == PLANE.load(SeqCst) {
            let n = LIVE.fetch_add(1, SeqCst) + 1;
            PEAK.fetch_max(n, SeqCst);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: L) {
        if l.align() == 64 && l.size() == PLANE.load(SeqCst) {
            LIVE.fetch_sub(1, SeqCst);
        }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counter = Counter;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    common::install_panic_hook();
    explore::init();
    props::run(&id, &args[2.min(args.len())..]);
}
