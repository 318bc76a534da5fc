//! Scheduling points inside the code under test.
//!
//! In the `sched` build the compiler calls these functions at every control-flow edge and
//! before every load and store of the code under test. A thread that has been armed stops at
//! the n-th of them: every edge counts, and every access to memory that two threads can share
//! (writable statics, and the object under test). This crate itself is not instrumented.
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicUsize, Ordering};

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static POINTS: Cell<u64> = const { Cell::new(0) };
    static EDGES: Cell<bool> = const { Cell::new(false) };
    static HOOK: Cell<Option<fn()>> = const { Cell::new(None) };
    /// the last edge, and the accesses since: together the place of a point in the code
    static EDGE: Cell<usize> = const { Cell::new(0) };
    static SINCE: Cell<usize> = const { Cell::new(0) };
    static NOTE: Cell<bool> = const { Cell::new(false) };
    static PLACES: RefCell<Option<Vec<u32>>> = const { RefCell::new(None) };
}

/// places are noted for this many points at most
const NOTED: usize = 400_000;

static WATCH_FROM: AtomicUsize = AtomicUsize::new(0);
static WATCH_TO: AtomicUsize = AtomicUsize::new(0);

unsafe extern "C" {
    static __data_start: u8;
    static _end: u8;
}

/// Counts from now on, with or without the edges; `hook` runs at the `at`-th point (never,
/// if 0).
pub fn arm(at: u64, only_accesses: bool, hook: Option<fn()>) {
    LEFT.set(at);
    HOOK.set(hook);
    POINTS.set(0);
    EDGES.set(!only_accesses);
    EDGE.set(0);
    SINCE.set(0);
    ON.set(true);
}

/// Makes the points that follow be noted with their places in the code.
pub fn note_places() {
    NOTE.set(true);
    PLACES.set(Some(Vec::with_capacity(4096)));
}

/// points since `arm`
pub fn disarm() -> u64 {
    ON.set(false);
    POINTS.get()
}

/// the places of the points since `note_places`
pub fn places() -> Vec<u32> {
    PLACES.take().unwrap_or_default()
}

pub fn watch(from: usize, len: usize) {
    WATCH_FROM.store(from, Ordering::SeqCst);
    WATCH_TO.store(from + len, Ordering::SeqCst);
}

#[cold]
fn note() {
    PLACES.with_borrow_mut(|p| {
        if let Some(p) = p {
            if p.len() < NOTED {
                p.push((EDGE.get() as u32).wrapping_mul(0x9e37_79b1) ^ (SINCE.get() as u32).wrapping_mul(0x85eb_ca77));
            }
        }
    });
}

#[inline]
fn point() {
    POINTS.set(POINTS.get() + 1);
    if NOTE.get() {
        note();
    }
    let n = LEFT.get();
    if n > 0 {
        LEFT.set(n - 1);
        if n == 1 {
            if let Some(h) = HOOK.get() {
                ON.set(false);
                h();
                ON.set(true);
            }
        }
    }
}

#[inline]
fn access(a: usize) {
    if !ON.get() {
        return;
    }
    SINCE.set(SINCE.get() + 1);
    let stat = a >= &raw const __data_start as usize && a < &raw const _end as usize;
    if stat || (a >= WATCH_FROM.load(Ordering::Relaxed) && a < WATCH_TO.load(Ordering::Relaxed)) {
        point();
    }
}

#[unsafe(no_mangle)]
extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if ON.get() {
        EDGE.set(guard as usize);
        SINCE.set(0);
        if EDGES.get() {
            point();
        }
    }
}
#[unsafe(no_mangle)]
extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {}

macro_rules! accesses {
    ($($f:ident)*) => { $(#[unsafe(no_mangle)] extern "C" fn $f(a: usize) { access(a) })* };
}
accesses!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);
