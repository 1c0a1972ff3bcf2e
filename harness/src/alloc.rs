//! Global allocator with canaries: detects double free, leaks (by count) and
//! makes uninitialised or freed memory recognisable.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;


pub struct A;
thread_local! { static LIVE: Cell<i64> = const { Cell::new(0) }; }
const LIVE_MAGIC: u64 = 0x11fe_11fe_a110_ca7e;
const DEAD_MAGIC: u64 = 0xdead_f4ee_dead_f4ee;

fn hdr(l: &Layout) -> usize { if l.align() > 16 { l.align() } else { 16 } }
pub fn live() -> i64 { LIVE.with(|c| c.get()) }

unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let h = hdr(&l);
        let big = Layout::from_size_align_unchecked(l.size() + h, l.align().max(16));
        let p = System.alloc(big);
        if p.is_null() { return p; }
        *(p as *mut u64) = LIVE_MAGIC;
        *(p as *mut u64).add(1) = l.size() as u64;
        let q = p.add(h);
        let n = l.size().min(256);
        std::ptr::write_bytes(q, 0xAA, n);
        let _ = LIVE.try_with(|c| c.set(c.get() + 1));
        q
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let h = hdr(&l);
        let p = q.sub(h);
        if *(p as *mut u64) != LIVE_MAGIC || *(p as *mut u64).add(1) != l.size() as u64 {
            crate::work::fatal("memory released twice, with a wrong layout, or corrupted");
        }
        *(p as *mut u64) = DEAD_MAGIC;
        let n = l.size().min(256);
        std::ptr::write_bytes(q, 0xDD, n);
        let _ = LIVE.try_with(|c| c.set(c.get() - 1));
        System.dealloc(p, Layout::from_size_align_unchecked(l.size() + h, l.align().max(16)));
    }
    unsafe fn realloc(&self, q: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let r = self.alloc(nl);
        if !r.is_null() {
            std::ptr::copy_nonoverlapping(q, r, l.size().min(new));
            self.dealloc(q, l);
        }
        r
    }
}
