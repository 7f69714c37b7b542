//! Allocator that records the largest request, refuses absurd ones (so that an unchecked
//! reservation of a declared length is noticed), can record all requests in a window, fills new
//! and released memory with patterns, moves every block that grows, and ends the process when
//! something was written behind a block.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
pub struct Alloc;
pub const CAP: usize = 1 << 28;
const PAD: usize = 16;
const MARK: u8 = 0xC3;
static MAX: AtomicUsize = AtomicUsize::new(0);
pub fn reset() { MAX.store(0, Relaxed) }
pub fn max() -> usize { MAX.load(Relaxed) }

#[derive(Clone, Copy)]
pub struct Event { pub kind: u8, pub at: usize, pub size: usize, pub to: usize, pub new: usize }
pub const EVENTS: usize = 1 << 14;
struct Log(UnsafeCell<[Event; EVENTS]>);
unsafe impl Sync for Log {}
static LOG: Log = Log(UnsafeCell::new([Event { kind: 0, at: 0, size: 0, to: 0, new: 0 }; EVENTS]));
static LEN: AtomicUsize = AtomicUsize::new(0);
static ON: AtomicBool = AtomicBool::new(false);
pub fn start() { LEN.store(0, Relaxed); ON.store(true, Relaxed) }
pub fn stop() { ON.store(false, Relaxed) }
/// what happened in the last window; None if it was too much
pub fn events() -> Option<Vec<Event>> {
    let n = LEN.load(Relaxed);
    if n > EVENTS { return None }
    Some(unsafe { (&*LOG.0.get())[..n].to_vec() })
}
fn note(kind: u8, at: usize, size: usize, to: usize, new: usize) {
    if !ON.load(Relaxed) { return }
    let i = LEN.fetch_add(1, Relaxed);
    if i < EVENTS { unsafe { (*LOG.0.get())[i] = Event { kind, at, size, to, new } } }
}
fn padded(l: Layout) -> Layout { unsafe { Layout::from_size_align_unchecked(l.size() + PAD, l.align()) } }
unsafe fn fresh(l: Layout, zero: bool) -> *mut u8 {
    MAX.fetch_max(l.size(), Relaxed);
    if l.size() > CAP { return std::ptr::null_mut() }
    let p = if zero { System.alloc_zeroed(padded(l)) } else { System.alloc(padded(l)) };
    if !p.is_null() {
        if !zero { p.write_bytes(0xA5, l.size().min(1 << 20)) }
        p.add(l.size()).write_bytes(MARK, PAD);
    }
    p
}
unsafe fn gone(p: *mut u8, l: Layout) {
    for i in 0..PAD { if *p.add(l.size() + i) != MARK { std::process::abort() } }
    p.write_bytes(0x5A, l.size().min(1 << 20));
    System.dealloc(p, padded(l))
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let p = fresh(l, false); if !p.is_null() { note(1, p as usize, l.size(), 0, 0) } p }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { let p = fresh(l, true); if !p.is_null() { note(1, p as usize, l.size(), 0, 0) } p }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { note(2, p as usize, l.size(), 0, 0); gone(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = fresh(Layout::from_size_align_unchecked(n, l.align()), false);
        if !q.is_null() {
            q.copy_from_nonoverlapping(p, l.size().min(n));
            note(3, p as usize, l.size(), q as usize, n);
            gone(p, l);
        }
        q
    }
}
