//! Counting allocator: every byte the process holds, with a cap that turns runaway growth into a verdict.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static BLOCKS: AtomicUsize = AtomicUsize::new(0);
static ALLOCS: AtomicUsize = AtomicUsize::new(0);
static CAP: AtomicUsize = AtomicUsize::new(5 << 29);

static PEAK: AtomicUsize = AtomicUsize::new(0);
pub fn reset_peak() { PEAK.store(LIVE.load(Relaxed), Relaxed) }
pub fn peak() -> usize { PEAK.load(Relaxed) }
pub fn live() -> usize { LIVE.load(Relaxed) }
pub fn blocks() -> usize { BLOCKS.load(Relaxed) }
/// bytes ever asked for
pub fn requested() -> usize { REQUESTED.load(Relaxed) }
static REQUESTED: AtomicUsize = AtomicUsize::new(0);
pub fn allocs() -> usize { ALLOCS.load(Relaxed) }
/// How many allocations more succeed, before one fails; MAX for all.
static FAIL_IN: AtomicUsize = AtomicUsize::new(usize::MAX);
static SERVED: AtomicUsize = AtomicUsize::new(0);
/// Let the allocation after the next n fail, once.
pub fn fail_in(n: usize) { FAIL_IN.store(n, Relaxed) }
/// Did the one that was to fail happen?
pub fn failed() -> bool { FAIL_IN.load(Relaxed) == usize::MAX }
/// How many requests (allocations and changes of size) there were.
pub fn served() -> usize { SERVED.load(Relaxed) }
fn refuse() -> bool {
    SERVED.fetch_add(1, Relaxed);
    let n = FAIL_IN.load(Relaxed);
    if n == usize::MAX { return false }
    FAIL_IN.store(n.wrapping_sub(1), Relaxed);
    n == 0
}
pub fn set_cap(n: usize) { CAP.store(n, Relaxed) }

fn add(n: usize) {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    if l > PEAK.load(Relaxed) { PEAK.store(l, Relaxed) }
    BLOCKS.fetch_add(1, Relaxed);
    REQUESTED.fetch_add(n, Relaxed);
    ALLOCS.fetch_add(1, Relaxed);
    if l > CAP.load(Relaxed) { crate::run::fatal("no bounded memory: the case holds more memory than any correct run needs") }
}
fn sub(n: usize) { LIVE.fetch_sub(n, Relaxed); BLOCKS.fetch_sub(1, Relaxed); }

/// In builds without a sanitizer every block is surrounded by what proves how it was allocated and that nobody wrote past it; fresh and freed
/// memory holds junk, so that reading it does not look like reading something. (Sanitizers do this better, and Miri only sees a wrong
/// layout when it allocates itself.)
pub const GUARDED: bool = !cfg!(any(miri, sanitize = "address", sanitize = "thread"));
/// Set by runs that judge undefined behaviour: whoever breaks the allocator's contract ends the process.
pub static JUDGE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static BROKEN: AtomicUsize = AtomicUsize::new(0);
pub fn broken() -> usize { BROKEN.load(Relaxed) }
const MAGIC: u64 = 0x7b1d_5ca1_ab1e_0c0d;
const TAIL: usize = 16;
const JUNK: usize = 2048;
fn wrong(what: &str) {
    BROKEN.fetch_add(1, Relaxed);
    if JUDGE.load(Relaxed) { crate::run::fatal(what) }
}
fn head(l: Layout) -> usize { l.align().max(32) }
fn outer(size: usize, align: usize) -> Layout { unsafe { Layout::from_size_align_unchecked(align.max(32) + size + TAIL, align.max(16)) } }
unsafe fn seal(base: *mut u8, l: Layout) -> *mut u8 {
    let p = base.add(head(l));
    let h = p.sub(32) as *mut u64;
    *h = l.size() as u64; *h.add(1) = l.align() as u64; *h.add(2) = MAGIC; *h.add(3) = MAGIC ^ l.size() as u64;
    std::ptr::write_bytes(p.add(l.size()), 0xEE, TAIL);
    p
}
/// The layout the block was allocated with.
unsafe fn open(p: *mut u8, l: Layout) -> Layout {
    let h = p.sub(32) as *mut u64;
    let (size, align) = (*h as usize, *h.add(1) as usize);
    if *h.add(2) != MAGIC || *h.add(3) != MAGIC ^ size as u64 { crate::run::fatal("undefined behaviour: a block is released that is not allocated, or what lies before it was overwritten"); }
    if size != l.size() || align != l.align() { wrong("undefined behaviour: a block is released with another layout than it was allocated with"); }
    for i in 0..TAIL { if *p.add(size + i) != 0xEE { crate::run::fatal("undefined behaviour: memory past the end of a block was overwritten") } }
    Layout::from_size_align_unchecked(size, align)
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse() { return std::ptr::null_mut() }
        if !GUARDED { let p = System.alloc(l); if !p.is_null() { add(l.size()) } return p }
        let b = System.alloc(outer(l.size(), l.align()));
        if b.is_null() { return b }
        add(l.size());
        let p = seal(b, l);
        std::ptr::write_bytes(p, 0xA5, l.size().min(JUNK));
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !GUARDED { System.dealloc(p, l); sub(l.size()); return }
        let r = open(p, l);
        std::ptr::write_bytes(p, 0xD7, r.size().min(JUNK));
        *(p.sub(16) as *mut u64) = 0; // no longer a block
        System.dealloc(p.sub(head(r)), outer(r.size(), r.align()));
        sub(r.size());
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refuse() { return std::ptr::null_mut() }
        if !GUARDED { let p = System.alloc_zeroed(l); if !p.is_null() { add(l.size()) } return p }
        let b = System.alloc_zeroed(outer(l.size(), l.align()));
        if b.is_null() { return b }
        add(l.size());
        seal(b, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if refuse() { return std::ptr::null_mut() }
        if !GUARDED {
            let q = System.realloc(p, l, n);
            if !q.is_null() { sub(l.size()); add(n) }
            return q
        }
        let r = open(p, l);
        let b = System.realloc(p.sub(head(r)), outer(r.size(), r.align()), outer(n, r.align()).size());
        if b.is_null() { return b }
        sub(r.size()); add(n);
        let q = seal(b, Layout::from_size_align_unchecked(n, r.align()));
        if n > r.size() { std::ptr::write_bytes(q.add(r.size()), 0xA5, (n - r.size()).min(JUNK)) }
        q
    }
}
#[cfg_attr(not(miri), global_allocator)]
#[allow(dead_code)]
static A: Counting = Counting;
