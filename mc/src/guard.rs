//! Guarding allocator: while a [`Placement`] is active on a thread, every small allocation is put
//! into a slot that is fenced by inaccessible pages, at a position and with stale contents chosen by
//! the explorer. Allocation placement and stale memory are thereby *inputs* of the exploration.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicIsize, AtomicU64, AtomicUsize, Ordering::*};

const PAGE: usize = 4096;
const DATA: usize = 2 * PAGE;
const SLOT: usize = DATA + PAGE;
const SLOTS: usize = 768;
const CANARY: usize = 256;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Placement {
    /// true: the allocation ends at the fence; false: it starts at the fence.
    pub at_end: bool,
    /// distance from the fence for byte buffers (alignment 1); shifts their alignment
    pub skew: usize,
    /// stale contents of fresh memory
    pub fill: u8,
}

thread_local! {
    static MODE: Cell<Option<Placement>> = const { Cell::new(None) };
    static MAX: Cell<usize> = const { Cell::new(0) };
}

static BASE: AtomicUsize = AtomicUsize::new(0);
static HINT: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static ALLOCS: AtomicU64 = AtomicU64::new(0);
static FALLBACKS: AtomicU64 = AtomicU64::new(0);
static BAD: AtomicUsize = AtomicUsize::new(0);
static TRACK: AtomicBool = AtomicBool::new(false);
static BYTES: AtomicIsize = AtomicIsize::new(0);
static PEAK: AtomicIsize = AtomicIsize::new(0);

fn count(d: isize) {
    if TRACK.load(Relaxed) {
        PEAK.fetch_max(BYTES.fetch_add(d, Relaxed) + d, Relaxed);
    }
}
/// Run `f` with the memory of all threads counted from here.
pub fn tracked<R>(f: impl FnOnce() -> R) -> R {
    struct Stop;
    impl Drop for Stop {
        fn drop(&mut self) {
            TRACK.store(false, SeqCst);
        }
    }
    BYTES.store(0, SeqCst);
    PEAK.store(0, SeqCst);
    TRACK.store(true, SeqCst);
    let _s = Stop;
    f()
}
/// Bytes in use now, counted from the start of [`tracked`].
pub fn bytes() -> isize {
    BYTES.load(SeqCst)
}
/// The most bytes in use at any time since the last call; the maximum starts anew.
pub fn take_peak() -> isize {
    PEAK.swap(BYTES.load(SeqCst), SeqCst)
}
#[allow(clippy::declare_interior_mutable_const)]
const F: AtomicBool = AtomicBool::new(false);
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicUsize = AtomicUsize::new(0);
static USED: [AtomicBool; SLOTS] = [F; SLOTS];
static PTR: [AtomicUsize; SLOTS] = [Z; SLOTS];
static SIZE: [AtomicUsize; SLOTS] = [Z; SLOTS];
static FILL: [AtomicUsize; SLOTS] = [Z; SLOTS];

pub const BAD_CANARY: usize = 1;
pub const BAD_FREE: usize = 2;

fn base() -> usize {
    let b = BASE.load(Acquire);
    if b != 0 {
        return b;
    }
    unsafe {
        let len = SLOTS * SLOT + PAGE;
        let p = libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_NONE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        if p == libc::MAP_FAILED {
            libc::abort();
        }
        let p = p as usize;
        for i in 0..SLOTS {
            libc::mprotect(
                (p + PAGE + i * SLOT) as *mut _,
                DATA,
                libc::PROT_READ | libc::PROT_WRITE,
            );
        }
        match BASE.compare_exchange(0, p, AcqRel, Acquire) {
            Ok(_) => p,
            Err(other) => {
                libc::munmap(p as *mut _, len);
                other
            }
        }
    }
}

pub struct Guarding;

fn in_arena(p: usize) -> bool {
    let b = BASE.load(Acquire);
    b != 0 && p >= b && p < b + SLOTS * SLOT + PAGE
}

/// The part of a slot that is filled and checked around an allocation.
fn window(d: usize, p: usize, n: usize) -> (usize, usize) {
    (
        d.max(p.saturating_sub(CANARY)),
        (d + DATA).min(p + n + CANARY),
    )
}
unsafe fn all_are(lo: usize, hi: usize, f: u8) -> bool {
    let s = std::slice::from_raw_parts(lo as *const u8, hi - lo);
    let (a, m, z) = s.align_to::<u64>();
    let w = u64::from_ne_bytes([f; 8]);
    a.iter().all(|&x| x == f) && m.iter().all(|&x| x == w) && z.iter().all(|&x| x == f)
}

unsafe fn slot_alloc(pl: Placement, l: Layout) -> *mut u8 {
    let b = base();
    let start = HINT.load(Relaxed);
    for k in 0..SLOTS {
        let i = (start + k) % SLOTS;
        if USED[i]
            .compare_exchange(false, true, AcqRel, Relaxed)
            .is_ok()
        {
            HINT.store(i + 1, Relaxed);
            let d = b + PAGE + i * SLOT;
            let skew = if l.align() == 1 { pl.skew } else { 0 };
            let p = if pl.at_end {
                (d + DATA - l.size() - skew) & !(l.align() - 1)
            } else {
                d + skew
            };
            let (lo, hi) = window(d, p, l.size());
            std::ptr::write_bytes(lo as *mut u8, pl.fill, hi - lo);
            PTR[i].store(p, Relaxed);
            SIZE[i].store(l.size(), Relaxed);
            FILL[i].store(pl.fill as usize, Relaxed);
            LIVE.fetch_add(1, AcqRel);
            ALLOCS.fetch_add(1, Relaxed);
            return p as *mut u8;
        }
    }
    FALLBACKS.fetch_add(1, Relaxed);
    System.alloc(l)
}

unsafe fn slot_free(p: usize) {
    let i = (p - base() - PAGE) / SLOT;
    if !USED[i].load(Acquire) || PTR[i].load(Relaxed) != p {
        BAD.fetch_or(BAD_FREE, AcqRel);
        return;
    }
    let d = base() + PAGE + i * SLOT;
    let f = FILL[i].load(Relaxed) as u8;
    let n = SIZE[i].load(Relaxed);
    let (lo, hi) = window(d, p, n);
    if !all_are(lo, p, f) || !all_are(p + n, hi, f) {
        BAD.fetch_or(BAD_CANARY, AcqRel);
    }
    std::ptr::write_bytes(p as *mut u8, 0xDD, n);
    LIVE.fetch_sub(1, AcqRel);
    USED[i].store(false, Release);
}

unsafe impl GlobalAlloc for Guarding {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as isize);
        if let Ok(Some(pl)) = MODE.try_with(|m| m.get()) {
            let _ = MAX.try_with(|m| m.set(m.get().max(l.size())));
            if l.size() + 64 <= DATA && l.align() <= PAGE {
                return slot_alloc(pl, l);
            }
            FALLBACKS.fetch_add(1, Relaxed);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as isize));
        if in_arena(p as usize) {
            slot_free(p as usize)
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if matches!(MODE.try_with(|m| m.get()), Ok(Some(_))) {
            let p = self.alloc(l);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, l.size());
            }
            p
        } else {
            count(l.size() as isize);
            System.alloc_zeroed(l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if in_arena(p as usize) || matches!(MODE.try_with(|m| m.get()), Ok(Some(_))) {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            q
        } else {
            count(n as isize - l.size() as isize);
            System.realloc(p, l, n)
        }
    }
}

/// Run `f` with all allocations of this thread placed as described.
pub fn with<R>(pl: Placement, f: impl FnOnce() -> R) -> R {
    struct Restore(Option<Placement>);
    impl Drop for Restore {
        fn drop(&mut self) {
            MODE.with(|m| m.set(self.0));
        }
    }
    let _r = Restore(MODE.with(|m| m.replace(Some(pl))));
    f()
}

/// Run `f` with guarding off (for the harness's own bookkeeping inside a guarded section).
pub fn off<R>(f: impl FnOnce() -> R) -> R {
    struct Restore(Option<Placement>);
    impl Drop for Restore {
        fn drop(&mut self) {
            MODE.with(|m| m.set(self.0));
        }
    }
    let _r = Restore(MODE.with(|m| m.replace(None)));
    f()
}

/// Largest single allocation requested under guard on this thread since the last call.
pub fn take_max() -> usize {
    MAX.with(|m| m.replace(0))
}
pub fn force_off() {
    MODE.with(|m| m.set(None));
}
pub fn live() -> usize {
    LIVE.load(Acquire)
}
pub fn allocs() -> u64 {
    ALLOCS.load(Relaxed)
}
pub fn fallbacks() -> u64 {
    FALLBACKS.load(Relaxed)
}
/// Heap corruption flags seen since the last call.
pub fn take_bad() -> usize {
    BAD.swap(0, AcqRel)
}
