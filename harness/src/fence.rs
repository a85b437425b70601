//! A heap whose blocks end at inaccessible pages.
//!
//! While a thread has it switched on, everything the thread allocates through Rust's allocator (frames,
//! memories, call data, return data, what the builtins allocate) lies flush against a `PROT_NONE` page (behind it, in every fourth run before it), every
//! reallocation moves, freed blocks stay inaccessible, and fresh memory holds a pattern instead of zeros.
//! A read or write past a block's end or through a stale pointer, by compiled code or by a builtin, is a
//! segmentation fault there and then, at full speed and without instrumentation.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};

pub struct Fence;

#[global_allocator]
static HEAP: Fence = Fence;

const PAGE: usize = 4096;
const ARENA: usize = 32 << 30;
const MAX: usize = 16 << 20;
const FRESH: u8 = 0xd5;
const SLACK: u8 = 0xc9;

static BASE: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static BLOCKS: AtomicUsize = AtomicUsize::new(0);
static RUNS: AtomicUsize = AtomicUsize::new(0);
static MOVED: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
}

/// Fence every run of compiled code.
pub static ALL: AtomicBool = AtomicBool::new(false);

/// Blocks fenced and moved so far.
pub fn seen() -> (usize, usize) {
    (BLOCKS.load(Relaxed), MOVED.load(Relaxed))
}

pub fn on() -> bool {
    ON.with(|o| o.get())
}

/// Runs `f` with this thread's allocations fenced.
pub fn fenced<R>(f: impl FnOnce() -> R) -> R {
    struct Off(bool);
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|o| o.set(self.0));
        }
    }
    RUNS.fetch_add(1, Relaxed);
    let _off = Off(ON.with(|o| o.replace(true)));
    f()
}

fn arena() -> usize {
    let b = BASE.load(Acquire);
    if b != 0 {
        return b;
    }
    let m = unsafe {
        libc::mmap(std::ptr::null_mut(), ARENA, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0)
    } as usize;
    if m as isize == -1 {
        return 0;
    }
    match BASE.compare_exchange(0, m, AcqRel, Acquire) {
        Ok(_) => m,
        Err(other) => {
            unsafe { libc::munmap(m as *mut _, ARENA) };
            other
        }
    }
}

fn ours(p: *mut u8) -> bool {
    let b = BASE.load(Acquire);
    b != 0 && (p as usize).wrapping_sub(b) < ARENA
}

fn die(what: &str) -> ! {
    unsafe {
        libc::write(2, what.as_ptr().cast(), what.len());
        libc::abort()
    }
}

/// First page and accessible length of the block at `p`.
fn span(p: usize, l: Layout) -> (usize, usize) {
    let lo = p & !(PAGE - 1);
    let hi = (p + l.size()).div_ceil(PAGE) * PAGE;
    (lo, hi - lo)
}

impl Fence {
    unsafe fn take(&self, l: Layout) -> *mut u8 {
        let b = arena();
        if b == 0 || l.size() == 0 || l.size() > MAX || l.align() > PAGE {
            return std::ptr::null_mut();
        }
        let body = l.size().div_ceil(PAGE) * PAGE;
        let need = body + PAGE;
        let at = NEXT.fetch_add(need, AcqRel);
        if at + need > ARENA {
            // Start over when nothing is left of the earlier blocks.
            if LIVE.load(Acquire) == 0 {
                NEXT.store(0, Release);
            } else {
                NEXT.store(ARENA, Release);
            }
            return std::ptr::null_mut();
        }
        let lo = b + at;
        unsafe {
            if libc::mprotect(lo as *mut _, body, libc::PROT_READ | libc::PROT_WRITE) != 0 {
                return std::ptr::null_mut();
            }
            let p = if RUNS.load(Relaxed) % 4 == 0 { lo } else { (lo + body - l.size()) & !(l.align() - 1) };
            std::ptr::write_bytes(lo as *mut u8, SLACK, p - lo);
            std::ptr::write_bytes(p as *mut u8, FRESH, l.size());
            let end = p + l.size();
            std::ptr::write_bytes(end as *mut u8, SLACK, lo + body - end);
            LIVE.fetch_add(1, AcqRel);
            BLOCKS.fetch_add(1, Relaxed);
            p as *mut u8
        }
    }
    unsafe fn give(&self, p: *mut u8, l: Layout) {
        let (lo, n) = span(p as usize, l);
        let end = p as usize + l.size();
        unsafe {
            let before = std::slice::from_raw_parts(lo as *const u8, p as usize - lo);
            let after = std::slice::from_raw_parts(end as *const u8, lo + n - end);
            if before.iter().chain(after).any(|b| *b != SLACK) {
                die("fenced heap: bytes next to a block were overwritten\n");
            }
            libc::madvise(lo as *mut _, n, libc::MADV_DONTNEED);
            libc::mprotect(lo as *mut _, n, libc::PROT_NONE);
        }
        LIVE.fetch_sub(1, AcqRel);
    }
}

unsafe impl GlobalAlloc for Fence {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe {
            if ON.try_with(|o| o.get()).unwrap_or(false) {
                let p = self.take(l);
                if !p.is_null() {
                    return p;
                }
            }
            System.alloc(l)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        unsafe {
            if ON.try_with(|o| o.get()).unwrap_or(false) {
                let p = self.take(l);
                if !p.is_null() {
                    std::ptr::write_bytes(p, 0, l.size());
                    return p;
                }
            }
            System.alloc_zeroed(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            if ours(p) {
                self.give(p, l)
            } else {
                System.dealloc(p, l)
            }
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        unsafe {
            if !ours(p) && !ON.try_with(|o| o.get()).unwrap_or(false) {
                return System.realloc(p, l, size);
            }
            let q = self.alloc(Layout::from_size_align_unchecked(size, l.align()));
            if !q.is_null() {
                MOVED.fetch_add(1, Relaxed);
                std::ptr::copy_nonoverlapping(p, q, l.size().min(size));
                self.dealloc(p, l);
            }
            q
        }
    }
}
