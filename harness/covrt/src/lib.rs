//! The receiving end of the compiler's coverage instrumentation (-sanitizer-coverage-*): records the sequence of
//! control-flow edges and of loaded and stored addresses between `begin` and `end` on the current thread, and
//! compares it with the sequence of the first region.
#![no_builtins]
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering::Relaxed};

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn madvise(addr: *mut u8, len: usize, advice: i32) -> i32;
}
fn map(len: usize) -> *mut u8 {
    // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 0x2 | 0x20 | 0x4000, -1, 0) };
    assert!(p as isize != -1);
    p
}

const ARENA_LEN: usize = 256 << 20;
/// Threads which may have an arena.
const ARENAS: usize = 64;
static REGION: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
/// Events per region which are stored (4 bytes each).
const CAP: usize = 1 << 30;

/// Per edge: 1 = in a function whose behaviour is not judged (until it returns).
static CLASS: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static GUARDS: AtomicUsize = AtomicUsize::new(0);
static PCS: AtomicPtr<usize> = AtomicPtr::new(std::ptr::null_mut());
static PCS_LEN: AtomicUsize = AtomicUsize::new(0);

#[derive(Clone, Copy)]
struct St {
    on: bool,
    first: bool,
    /// The frame of the function which is not judged, or zero.
    skip: usize,
    diverged: bool,
    base: *mut u32,
    base_len: usize,
    len: usize,
    hash: u64,
    edges: u64,
    mem: u64,
    pc: u32,
    at: usize,
    want: u32,
    got: u32,
    diff_pc: u32,
    prev_pc: u32,
}
struct Tls {
    on: Cell<bool>,
    st: Cell<St>,
    arena: Cell<usize>,
    top: Cell<usize>,
    bump: Cell<bool>,
}
thread_local! {
    static T: Tls = const {
        Tls {
            on: Cell::new(false),
            st: Cell::new(St {
                on: false, first: false, skip: 0, diverged: false, base: std::ptr::null_mut(), base_len: 0, len: 0, hash: 0,
                edges: 0, mem: 0, pc: 0, at: 0, want: 0, got: 0, diff_pc: 0, prev_pc: 0,
            }),
            arena: Cell::new(0),
            top: Cell::new(0),
            bump: Cell::new(false),
        }
    };
}

/// What was seen in one region.
#[derive(Clone, Copy, Debug)]
pub struct Region {
    pub len: u64,
    pub edges: u64,
    pub mem: u64,
    pub hash: u64,
    pub truncated: bool,
    /// position, expected and observed event, last edges before it
    pub diff: Option<(u64, u32, u32, u32, u32)>,
}

/// Before any other thread starts.
pub fn init() {
    REGION.store(map(ARENAS * ARENA_LEN) as usize, Relaxed);
}
pub fn edges() -> usize {
    GUARDS.load(Relaxed)
}
/// The code address of an edge (1, 2, ...).
pub fn pc_of(edge: u32) -> usize {
    let n = PCS_LEN.load(Relaxed);
    if edge == 0 || edge as usize > n {
        return 0;
    }
    unsafe { *PCS.load(Relaxed).add(2 * (edge as usize - 1)) }
}
pub fn set_classes(v: Vec<u8>) {
    assert!(v.len() > edges());
    CLASS.store(Box::leak(v.into_boxed_slice()).as_mut_ptr(), Relaxed);
}

/// From now on allocations of this thread come from its arena.
pub fn arena_start() {
    T.with(|t| {
        if t.arena.get() == 0 {
            let i = NEXT.fetch_add(1, Relaxed);
            assert!(i < ARENAS);
            t.arena.set(REGION.load(Relaxed) + i * ARENA_LEN);
        }
        t.top.set(t.arena.get());
        t.bump.set(true);
    })
}
pub fn arena_stop() {
    T.with(|t| t.bump.set(false))
}

pub fn begin(first: bool) {
    T.with(|t| {
        let mut s = t.st.get();
        if s.base.is_null() {
            s.base = map(CAP * 4) as *mut u32;
        }
        if first {
            if s.base_len > 1 << 20 {
                unsafe { madvise(s.base as *mut u8, s.base_len * 4, 4) };
            }
            s.base_len = 0;
        }
        s.on = true;
        s.first = first;
        s.skip = 0;
        s.diverged = false;
        s.len = 0;
        s.hash = 0xcbf29ce484222325;
        s.edges = 0;
        s.mem = 0;
        s.pc = 0;
        s.prev_pc = 0;
        t.st.set(s);
        t.on.set(true);
    })
}
pub fn end() -> Region {
    T.with(|t| {
        t.on.set(false);
        let mut s = t.st.get();
        s.on = false;
        if s.first {
            s.base_len = s.len.min(CAP);
        } else if !s.diverged && s.len != s.base_len {
            s.diverged = true;
            s.at = s.len;
            s.want = if s.len < s.base_len { unsafe { *s.base.add(s.len) } } else { 0 };
            s.got = 0;
            s.diff_pc = s.pc;
        }
        t.st.set(s);
        Region {
            len: s.len as u64,
            edges: s.edges,
            mem: s.mem,
            hash: s.hash,
            truncated: s.len > CAP,
            diff: s.diverged.then_some((s.at as u64, s.want, s.got, s.diff_pc, s.prev_pc)),
        }
    })
}

/// The frame of the instrumented function which called (everything here is inlined, and frame pointers are on).
#[inline(always)]
fn frame() -> usize {
    let own: *const usize;
    unsafe {
        std::arch::asm!("mov {}, rbp", out(reg) own, options(nomem, nostack));
        *own
    }
}

#[inline(always)]
fn event(e: u32, edge: bool) {
    T.with(|t| {
        if !t.on.get() {
            return;
        }
        // SAFETY: only this thread has access
        let s = unsafe { &mut *t.st.as_ptr() };
        if edge {
            let c = CLASS.load(Relaxed);
            let c = if c.is_null() { 0 } else { unsafe { *c.add(e as usize) } };
            if s.skip != 0 {
                let f = frame();
                if f < s.skip || f == s.skip && c == 1 {
                    return;
                }
                s.skip = 0;
            }
            if c == 1 {
                s.skip = frame();
                return;
            }
            s.edges += 1;
        } else {
            if s.skip != 0 {
                if frame() <= s.skip {
                    return;
                }
                s.skip = 0;
            }
            s.mem += 1;
        }
        // edges are even, addresses odd
        let x = if edge { e << 1 } else { e | 1 };
        if s.first {
            if s.len < CAP {
                unsafe { *s.base.add(s.len) = x };
            }
        } else if !s.diverged {
            let want = if s.len < s.base_len { unsafe { *s.base.add(s.len) } } else { 0 };
            if want != x {
                s.diverged = true;
                s.at = s.len;
                s.want = want;
                s.got = x;
                s.diff_pc = if edge { e } else { s.pc };
                s.prev_pc = s.pc;
            }
        }
        s.hash = (s.hash ^ x as u64).wrapping_mul(0x100000001b3);
        s.len += 1;
        if edge {
            s.pc = e;
        }
    })
}
#[inline(always)]
fn access(p: usize) {
    let h = (p as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 32;
    event(h as u32, false)
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    unsafe {
        if start == stop || *start != 0 {
            return;
        }
        while p < stop {
            *p = GUARDS.fetch_add(1, Relaxed) as u32 + 1;
            p = p.add(1);
        }
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(start: *mut usize, stop: *mut usize) {
    PCS.store(start, Relaxed);
    PCS_LEN.store((stop as usize - start as usize) / 16, Relaxed);
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    event(unsafe { *g }, true)
}
macro_rules! accesses {
    ($($n:ident)*) => { $(#[no_mangle] pub extern "C" fn $n(p: *const u8) { access(p as usize) })* }
}
accesses!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
          __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

/// The C library's comparison stops at the first difference: report where that is.
unsafe fn compare(a: *const u8, b: *const u8, n: usize) -> i32 {
    for i in 0..n {
        let (x, y) = (a.add(i).read_volatile(), b.add(i).read_volatile());
        if x != y {
            access(a as usize + i);
            return x as i32 - y as i32;
        }
    }
    access(a as usize + n);
    0
}
#[no_mangle]
pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    compare(a, b, n)
}
#[no_mangle]
pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    compare(a, b, n)
}

/// Addresses of the heap do not depend on history.
pub struct Bump;
unsafe impl GlobalAlloc for Bump {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        T.with(|t| {
            if !t.bump.get() {
                return System.alloc(l);
            }
            let at = t.top.get().div_ceil(l.align()) * l.align();
            t.top.set(at + l.size());
            if at + l.size() > t.arena.get() + ARENA_LEN {
                return std::ptr::null_mut();
            }
            // the requested size is observable, too
            access(at ^ l.size().rotate_left(40));
            at as *mut u8
        })
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = REGION.load(Relaxed);
        if a == 0 || !(a..a + ARENAS * ARENA_LEN).contains(&(p as usize)) {
            System.dealloc(p, l)
        }
    }
}
