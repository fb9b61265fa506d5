//! Counting global allocator: per-thread request counts and bytes, and global
//! live bytes/blocks.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::Relaxed};

pub struct Counting;

thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PAUSE: Cell<u64> = const { Cell::new(0) };
    static LOW: Cell<usize> = const { Cell::new(usize::MAX) };
    static STEP_MAX: Cell<usize> = const { Cell::new(0) };
}
static WATCHED_SIZE: AtomicUsize = AtomicUsize::new(usize::MAX);
static WATCHED: AtomicI64 = AtomicI64::new(0);

fn note(bytes: usize) {
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
    let _ = BYTES.try_with(|c| c.set(c.get() + bytes as u64));
}
fn live(d: i64) {
    let _ = LIVE.try_with(|c| c.set(c.get() + d));
    touch_stack();
}

fn block(size: usize, d: i64) {
    if size == WATCHED_SIZE.load(Relaxed) { WATCHED.fetch_add(d, Relaxed); }
    let _ = PAUSE.try_with(|p| {
        let x = p.get();
        if x != 0 {
            let x = x.wrapping_mul(0x5851_f42d_4c95_7f2d).wrapping_add(0x1405_7b7e_f767_814f) | 1;
            p.set(x);
            match x >> 59 { 0 => std::thread::yield_now(), 1..=4 => for _ in 0..x >> 52 & 127 { std::hint::spin_loop() }, _ => {} }
        }
    });
}

/// Notes how far down the stack of this thread is at this moment.
#[inline(never)]
pub fn touch_stack() {
    let here = 0u8;
    let a = std::hint::black_box(&here) as *const u8 as usize;
    let _ = LOW.try_with(|c| if a < c.get() { c.set(a) });
}
/// Runs `f` and returns how many bytes of stack it was seen to use (at heap
/// requests, heap releases and explicit touches).
pub fn stack_used<R>(f: impl FnOnce() -> R) -> (R, usize) {
    let here = 0u8;
    let top = std::hint::black_box(&here) as *const u8 as usize;
    let was = LOW.with(|c| c.replace(top));
    let r = f();
    let low = LOW.with(|c| c.replace(was.min(c.get())));
    (r, top - low)
}

/// Like `stack_used`, and remembers the maximum over all calls.
pub fn step_used<R>(f: impl FnOnce() -> R) -> R {
    let (r, n) = stack_used(f);
    STEP_MAX.with(|c| c.set(c.get().max(n)));
    r
}
/// The maximum since this was last asked.
pub fn take_step_max() -> usize { STEP_MAX.with(|c| c.replace(0)) }
const PAINTED: usize = 512 << 10;
const PAINT: u64 = 0x5ca1_ab1e_0ddb_a115;

/// Runs `f` over a painted stack and returns how far down it changed the paint.
#[inline(never)]
pub fn stack_painted<R>(f: impl FnOnce() -> R) -> (R, usize) {
    paint();
    let r = f();
    (r, unpainted())
}
#[inline(never)]
fn paint() {
    // More than is looked at later, as the frames may be laid out differently.
    let mut a = [PAINT; PAINTED / 8 + 1024];
    std::hint::black_box(&mut a);
}
#[inline(never)]
fn unpainted() -> usize {
    let a = std::mem::MaybeUninit::<[u64; PAINTED / 8]>::uninit();
    let p = std::hint::black_box(&a) as *const _ as *const u64;
    let mut i = 0;
    // SAFETY: reads within the frame of this function, volatile because the
    // content is what earlier calls left there.
    // Probing a large frame writes zeros; every frame has a return address.
    while i < PAINTED / 8 && matches!(unsafe { p.add(i).read_volatile() }, PAINT | 0) { i += 1 }
    PAINTED - 8 * i
}

/// What `f` does with the stack is not noted.
pub fn unnoted<R>(f: impl FnOnce() -> R) -> R {
    let was = LOW.with(Cell::get);
    let r = f();
    LOW.with(|c| c.set(was));
    r
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        live(l.size() as i64);
        block(l.size(), 1);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        live(-(l.size() as i64));
        block(l.size(), -1);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        live(l.size() as i64);
        block(l.size(), 1);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        live(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// (requests, requested bytes) of this thread so far.
pub fn mark() -> (u64, u64) {
    (CALLS.with(Cell::get), BYTES.with(Cell::get))
}
/// Bytes this thread requested and has not released.
pub fn live_bytes() -> i64 {
    LIVE.with(Cell::get)
}
/// From now on counts the live blocks of this size in the whole process.
pub fn watch_size(n: usize) { WATCHED_SIZE.store(n, Relaxed) }
pub fn watched_blocks() -> i64 { WATCHED.load(Relaxed) }
/// From now on heap operations of this thread now and then let others run.
pub fn set_pauses(seed: u64) { PAUSE.with(|p| p.set(seed)) }
/// Bookkeeping of the harness that is not to count as live bytes.
pub fn aside<R>(f: impl FnOnce() -> R) -> R {
    let l = LIVE.with(Cell::get);
    let r = f();
    LIVE.with(|c| c.set(l));
    r
}
